use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use proptest::collection::vec;
use proptest::prelude::*;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::frequency::Frequency;
use rust_quantlib::datetime::imm::IMM;
use rust_quantlib::datetime::months::Month;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit;
use rust_quantlib::context::pricing_context::PricingContext;

use crate::civil::*;
use crate::engine::*;

pub const UNITS: [TimeUnit; 4] = [TimeUnit::Days, TimeUnit::Weeks, TimeUnit::Months, TimeUnit::Years];

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// every field of a date agrees with the reference calendar for serial `s`
pub fn same_date(d: &Date, s: i32, what: &str) -> Res {
    let (y, m, dd) = ymd(s);
    ensure_eq!(d.serial_number(), s, "{what}: serial number of {}", show(s));
    ensure_eq!(d.year(), y, "{what}: year of {}", show(s));
    ensure_eq!(d.month() as u32, m, "{what}: month of {}", show(s));
    ensure_eq!(d.day_of_month(), dd, "{what}: day of month of {}", show(s));
    ensure_eq!(d.day_of_year(), yday(s), "{what}: day of year of {}", show(s));
    ensure_eq!(d.weekday() as u32, wday(s), "{what}: weekday of {}", show(s));
    Ok(())
}

// ---------------------------------------------------------------------------------------- D01

pub fn d01(s: &mut Session) {
    s.rule("Every day of 1900-2199 is enumerated (by year) and compared with a table-free reference calendar; a year is non-trivial when all its days were compared. Constructor arguments and serial numbers in and out of range are generated; non-trivial when they lie within a few units of the valid boundary or are invalid.");
    s.exhaust("calendar", (1900..2200).collect::<Vec<i32>>(), |&y, cx| {
        ensure_eq!(Date::is_leap(y), leap(y), "is_leap({y})");
        let mut n = 0;
        for k in y0(y)..=y1(y) {
            let (yy, m, d) = ymd(k);
            let a = Date::new(d, MONTHS[m as usize - 1], yy);
            let b = Date::from_serial(k);
            same_date(&a, k, "Date::new")?;
            same_date(&b, k, "Date::from_serial")?;
            ensure!(a == b && a.cmp(&b) == std::cmp::Ordering::Equal && h(&a) == h(&b),
                "Date::new and Date::from_serial of {} are not the same value", show(k));
            ensure!(format!("{a:?}").starts_with(&show(k)), "Debug of {} is {:?}", show(k), a);
            ensure_eq!(format!("{b:?}"), format!("{a:?}"), "Debug of from_serial({k})");
            n += 1;
        }
        cx.inner(n);
        cx.nontrivial();
        Ok(())
    });
    s.exhaust("limits", vec![0u8], |_, cx| {
        same_date(&Date::min_date(), MIN, "min_date")?;
        same_date(&Date::max_date(), MAX, "max_date")?;
        cx.nontrivial();
        Ok(())
    });
    s.check("construct", 6000, 200_000,
        || (0u32..=40, 1u32..=12, prop_oneof![3 => 1890..2210i32, 1 => -3000..6000i32]),
        |&(d, m, y), cx| {
            let valid = (1900..2200).contains(&y) && d >= 1 && d <= mlen(y, m);
            cx.nontrivial_if(!valid || d >= 28 || d == 1);
            cx.label(if valid { "valid" } else { "invalid" });
            let r = quiet(|| Date::new(d, MONTHS[m as usize - 1], y));
            match r {
                Ok(x) => {
                    ensure!(valid, "Date::new({d}, {m}, {y}) was accepted as {:?}", x);
                    same_date(&x, serial(y, m, d), "Date::new")
                }
                Err(e) => {
                    ensure!(!valid, "Date::new({d}, {m}, {y}) was rejected: {e}");
                    Ok(())
                }
            }
        });
    s.check("from_serial", 6000, 200_000,
        || prop_oneof![2 => -20..30i32, 2 => MAX - 20..MAX + 30, 2 => MIN..=MAX, 1 => any::<i32>()],
        |&k, cx| {
            let valid = (MIN..=MAX).contains(&k);
            cx.nontrivial_if(!valid || k < 30 || k > MAX - 30);
            match quiet(|| Date::from_serial(k)) {
                Ok(x) => {
                    ensure!(valid, "serial number {k} was accepted as {:?}", x);
                    same_date(&x, k, "Date::from_serial")
                }
                Err(e) => {
                    ensure!(!valid, "serial number {k} was rejected: {e}");
                    Ok(())
                }
            }
        });
}

// ---------------------------------------------------------------------------------------- D02

fn expect_date(what: &str, want: i64, f: impl FnOnce() -> Date) -> Res {
    let valid = (MIN as i64..=MAX as i64).contains(&want);
    match quiet(f) {
        Ok(d) => {
            ensure!(valid, "{what} should leave the supported range, got {:?} (serial {})", d, d.serial_number());
            same_date(&d, want as i32, what)
        }
        Err(e) => {
            ensure!(!valid, "{what} should be {} but panicked: {e}", show(want as i32));
            Ok(())
        }
    }
}

pub fn d02(s: &mut Session) {
    s.rule("A date (biased to month ends, leap days, year ends, range ends) and a signed day count; non-trivial when the result lies in another month. Histories: 1-12 in-place and pure operations applied in turn, each step compared with the model; non-trivial when at least three steps stay in range.");
    s.check("shift", 20_000, 1_000_000,
        || (arb_date(MIN, MAX), prop_oneof![4 => -400..=400i32, 2 => -110_000..=110_000i32, 1 => -3..=3i32]),
        |&(a, n), cx| {
            let d = date(a);
            let up = a as i64 + n as i64;
            let dn = a as i64 - n as i64;
            cx.nontrivial_if((MIN as i64..=MAX as i64).contains(&up) && ymd(up as i32).1 != ymd(a).1);
            cx.label(if (MIN as i64..=MAX as i64).contains(&up) { "in range" } else { "out of range" });
            expect_date("date + n", up, || d + n)?;
            expect_date("&date + n", up, || &d + n)?;
            expect_date("date - n", dn, || d - n)?;
            expect_date("&date - n", dn, || &d - n)?;
            expect_date("date += n", up, || { let mut x = d; x += n; x })?;
            expect_date("date -= n", dn, || { let mut x = d; x -= n; x })?;
            expect_date("date + nD", up, || d + Period::new(n, TimeUnit::Days))?;
            expect_date("date - nD", dn, || d - Period::new(n, TimeUnit::Days))?;
            let w = a as i64 + 7 * n as i64;
            expect_date("date + nW", w, || d + Period::new(n, TimeUnit::Weeks))?;
            Ok(())
        });
    s.check("compare", 20_000, 500_000,
        || (arb_date(MIN, MAX), prop_oneof![3 => arb_date(MIN, MAX).boxed(), 1 => Just(0).boxed(), 1 => (-39..40i32).boxed()]),
        |&(a, b0), cx| {
            // small second components are offsets from the first date
            let b = if b0.abs() < 40 { (a + b0).clamp(MIN, MAX) } else { b0 };
            cx.nontrivial_if(a != b);
            cx.label_if(a == b, "equal");
            let (x, y) = (date(a), Date::from_serial(b));
            ensure_eq!(y - x, b - a, "{} - {}", show(b), show(a));
            ensure_eq!(&y - &x, b - a, "&{} - &{}", show(b), show(a));
            ensure_eq!(Date::days_between(&x, &y), (b - a) as f64, "days_between({}, {})", show(a), show(b));
            ensure_eq!(x < y, a < b, "{} < {}", show(a), show(b));
            ensure_eq!(x <= y, a <= b, "{} <= {}", show(a), show(b));
            ensure_eq!(x > y, a > b, "{} > {}", show(a), show(b));
            ensure_eq!(x >= y, a >= b, "{} >= {}", show(a), show(b));
            ensure_eq!(x == y, a == b, "{} == {}", show(a), show(b));
            ensure_eq!(x.cmp(&y), a.cmp(&b), "cmp({}, {})", show(a), show(b));
            ensure_eq!(x.partial_cmp(&y), Some(a.cmp(&b)), "partial_cmp({}, {})", show(a), show(b));
            ensure_eq!(ser(&x.max(y)), a.max(b), "max");
            if a == b {
                ensure_eq!(h(&x), h(&y), "hash of equal dates");
            }
            // the difference takes one date to the other
            same_date(&(x + (y - x)), b, "x + (y - x)")?;
            Ok(())
        });
    s.check("history", 6000, 200_000,
        || (arb_date(y0(1905), y1(2190)), vec((0u8..10, -5000..5000i32), 1..12)),
        |(a, ops), cx| {
            let mut d = date(*a);
            let mut m = *a;
            let mut steps = 0;
            for &(op, n) in ops {
                let k = n % 60; // months / years stay moderate
                let (want, name) = match op {
                    0 | 1 | 8 => (m as i64 + n as i64, "+= n"),
                    2 | 3 => (m as i64 - n as i64, "-= n"),
                    4 => (m as i64 + 7 * k as i64, "+= kW"),
                    5 => (add_months(m, k) as i64, "+= kM"),
                    6 => (add_months(m, -k) as i64, "-= kM"),
                    7 => (add_months(m, 12 * k) as i64, "+= kY"),
                    _ => (eom(m) as i64, "end_of_month"),
                };
                if !(MIN as i64 + 100..=MAX as i64 - 100).contains(&want) {
                    continue;
                }
                match op {
                    0 => d += n,
                    1 => d = d + n,
                    8 => d = &d + n,
                    2 => d -= n,
                    3 => d = d - n,
                    4 => d += Period::new(k, TimeUnit::Weeks),
                    5 => d += Period::new(k, TimeUnit::Months),
                    6 => d -= Period::new(k, TimeUnit::Months),
                    7 => d += Period::new(k, TimeUnit::Years),
                    _ => d = d.end_of_month(),
                }
                let prev = m;
                m = want as i32;
                steps += 1;
                same_date(&d, m, &format!("step {name} (n={n}) from {}", show(prev)))?;
            }
            cx.nontrivial_if(steps >= 3);
            Ok(())
        });
}

// ---------------------------------------------------------------------------------------- D03

pub fn d03(s: &mut Session) {
    s.rule("A date (biased to days 27-31, leap days and year ends) and a signed number of months or years; non-trivial when the day of month is at least 28 or the step is negative.");
    s.check("months", 30_000, 2_000_000,
        || (arb_date(MIN, MAX), prop_oneof![4 => -60..=60i32, 2 => -3700..=3700i32], 2u8..=3),
        |&(a, n0, unit), cx| {
            let n = if unit == 3 { n0 / 12 } else { n0 };
            let d = date(a);
            let (y, m, dd) = ymd(a);
            cx.nontrivial_if(dd >= 28 || n < 0);
            let months = if unit == 3 { 12 * n } else { n };
            let target_year = (y * 12 + m as i32 - 1 + months).div_euclid(12);
            let valid = (1900..2200).contains(&target_year);
            cx.label(if valid { "in range" } else { "out of range" });
            let want = if valid { add_months(a, months) as i64 } else { -1 };
            if valid && ymd(want as i32).2 != dd {
                cx.label("clamped");
            }
            let p = Period::new(n, UNITS[unit as usize]);
            let q = -p;
            expect_date("date + period", want, || d + p)?;
            expect_date("&date + period", want, || &d + p)?;
            expect_date("&date + &period", want, || &d + &p)?;
            expect_date("date += period", want, || { let mut x = d; x += p; x })?;
            expect_date("date - (-period)", want, || d - q)?;
            expect_date("&date - (-period)", want, || &d - q)?;
            expect_date("date -= -period", want, || { let mut x = d; x -= q; x })?;
            if unit == 3 {
                expect_date("date + 12n months", want, || d + Period::new(12 * n, TimeUnit::Months))?;
            }
            if valid {
                // a day that exists in both months comes back
                let there = d + p;
                let back = there - p;
                if there.day_of_month() == dd {
                    same_date(&back, a, "(date + p) - p")?;
                } else {
                    ensure!(there.is_end_of_month(), "{} + {:?} = {:?} is neither the same day nor a month end", show(a), p, there);
                }
            }
            Ok(())
        });
    s.check("monotone", 10_000, 500_000,
        || (arb_date(y0(1950), y1(2150)), 0..70i32, -240..240i32),
        |&(a, gap, n), cx| {
            let (x, y) = (date(a), date(a + gap));
            let p = Period::new(n, TimeUnit::Months);
            cx.nontrivial_if(gap > 0 && n != 0);
            ensure!(x + p <= y + p, "{} <= {} but adding {n} months reverses them", show(a), show(a + gap));
            // successive months of the same anchor are strictly increasing
            ensure!(x + p < x + Period::new(n + 1, TimeUnit::Months), "{} + {n}M is not before + {}M", show(a), n + 1);
            Ok(())
        });
}

// ---------------------------------------------------------------------------------------- D04

pub fn d04(s: &mut Session) {
    s.rule("Every month of 1900-2199 (and in it every day, and every (n, weekday) with n = 0..7) is enumerated; all are non-trivial.");
    s.exhaust("months", (0..3600).collect::<Vec<i32>>(), |&i, cx| {
        let (y, m) = (1900 + i / 12, (i % 12) as u32 + 1);
        let month = MONTHS[m as usize - 1];
        let last = serial(y, m, mlen(y, m));
        for d in 1..=mlen(y, m) {
            let k = serial(y, m, d);
            let x = date(k);
            same_date(&x.end_of_month(), last, "end_of_month")?;
            ensure_eq!(x.is_end_of_month(), k == last, "is_end_of_month({})", show(k));
        }
        for w in 1..=7u32 {
            for n in 0..7usize {
                let want = if n == 0 || n > 5 { None } else {
                    let k = nth_wday(n as u32, w, y, m);
                    if k <= last { Some(k) } else { None }
                };
                let got = quiet(|| Date::nth_weekday(n, WEEKDAYS[w as usize - 1], month, y));
                match (got, want) {
                    (Ok(g), Some(k)) => same_date(&g, k, &format!("nth_weekday({n}, {:?}, {m}, {y})", WEEKDAYS[w as usize - 1]))?,
                    (Err(_), None) => {}
                    (Ok(g), None) => return Err(format!("nth_weekday({n}, weekday {w}, {m}, {y}) does not exist but gave {:?}", g)),
                    (Err(e), Some(k)) => return Err(format!("nth_weekday({n}, weekday {w}, {m}, {y}) should be {} but panicked: {e}", show(k))),
                }
            }
        }
        cx.inner(31 + 49);
        cx.nontrivial();
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- P01

/// (days, months) carried by a period
fn measure(p: &Period) -> (i64, i64) {
    match p.unit {
        TimeUnit::Days => (p.length as i64, 0),
        TimeUnit::Weeks => (7 * p.length as i64, 0),
        TimeUnit::Months => (0, p.length as i64),
        TimeUnit::Years => (0, 12 * p.length as i64),
        _ => unreachable!(),
    }
}

fn per((n, u): (i32, u8)) -> Period {
    Period::new(n, UNITS[u as usize])
}

fn arb_period(lo: i32, hi: i32) -> impl Strategy<Value = (i32, u8)> + Clone {
    (prop_oneof![3 => lo..=hi, 1 => (lo / 12..=hi / 12).prop_map(|k| 12 * k), 1 => (lo / 7..=hi / 7).prop_map(|k| 7 * k), 1 => Just(0)], 0u8..4)
}

/// any period that moves a date of 2025-2075 to another supported date
fn arb_reach() -> impl Strategy<Value = (i32, u8)> + Clone {
    let far = prop_oneof![
        (-40_000i32..=40_000).prop_map(|n| (n, 0u8)),
        (-820i32..=820).prop_map(|n| (7 * n, 0u8)),
        (-5_700i32..=5_700).prop_map(|n| (n, 1u8)),
        (-1_320i32..=1_320).prop_map(|n| (n, 2u8)),
        (-110i32..=110).prop_map(|n| (12 * n, 2u8)),
        (-1_100i32..=1_100).prop_map(|n| (n, 0u8)),
    ];
    prop_oneof![3 => arb_period(-110, 110), 1 => far]
}

pub fn p01(s: &mut Session) {
    s.rule("Pairs of periods in days, weeks, months or years with signed lengths, and a date; non-trivial when the units differ or a conversion happens.");
    s.check("algebra", 30_000, 1_000_000,
        || (arb_reach(), arb_reach(), arb_date(y0(2025), y1(2075))),
        |&(a, b, s0), cx| {
            let (p, q) = (per(a), per(b));
            cx.nontrivial_if(a.1 != b.1);
            let (mp, mq) = (measure(&p), measure(&q));
            let same_family = (p.unit as u8 / 2 == q.unit as u8 / 2) || p.length == 0 || q.length == 0;
            for sub in [false, true] {
                let r = quiet(|| { let mut x = p; if sub { x -= q } else { x += q }; x });
                let sg = if sub { -1 } else { 1 };
                match r {
                    Ok(x) => {
                        ensure!(same_family, "{:?} {} {:?} has no exact value but gave {:?}", p, if sub { "-" } else { "+" }, q, x);
                        ensure_eq!(measure(&x), (mp.0 + sg * mq.0, mp.1 + sg * mq.1), "{:?} {} {:?} = {:?}, as (days, months)", p, if sub { "-" } else { "+" }, q, x);
                    }
                    Err(e) => ensure!(!same_family, "{:?} {} {:?} panicked: {e}", p, if sub { "-" } else { "+" }, q),
                }
            }
            // normalisation keeps the length, is idempotent and uses the largest exact unit
            let n = p.normalised();
            ensure_eq!(measure(&n), mp, "normalised {:?} = {:?}", p, n);
            let mut n2 = p;
            n2.normalise();
            ensure!(n2.length == n.length && n2.unit == n.unit, "normalise and normalised differ on {:?}", p);
            let nn = n.normalised();
            ensure!(nn.length == n.length && nn.unit == n.unit, "normalising twice changes {:?}", n);
            if p.length == 0 {
                ensure!(n.length == 0 && n.unit == TimeUnit::Days, "normalised {:?} is {:?}", p, n);
            } else {
                let best = match p.unit {
                    TimeUnit::Days if p.length % 7 == 0 => TimeUnit::Weeks,
                    TimeUnit::Months if p.length % 12 == 0 => TimeUnit::Years,
                    u => u,
                };
                ensure_eq!(n.unit, best, "unit of normalised {:?}", p);
            }
            let d = date(s0);
            ensure_eq!(ser(&(d + p)), add_unit(s0, a.0, a.1), "{} + {:?}", show(s0), p);
            ensure_eq!(ser(&(d + n)), ser(&(d + p)), "{} + normalised {:?}", show(s0), p);
            // negation
            let m = -p;
            ensure_eq!(measure(&m), (-mp.0, -mp.1), "-({:?})", p);
            ensure_eq!(ser(&(d + m)), ser(&(d - p)), "{} + (-{:?}) against - {:?}", show(s0), p, p);
            // equal periods are interchangeable
            ensure_eq!(p == q, mp == mq || (p.length == 0 && q.length == 0), "{:?} == {:?}", p, q);
            if p == q {
                cx.label("equal pair");
                ensure_eq!(h(&p), h(&q), "hash of equal periods {:?} and {:?}", p, q);
                ensure_eq!(ser(&(d + p)), ser(&(d + q)), "{} advanced by equal periods {:?} and {:?}", show(s0), p, q);
            }
            ensure!(n == p && h(&n) == h(&p), "{:?} and its normalised form {:?} are not the same value", p, n);
            Ok(())
        });
    s.check("scale", 20_000, 500_000,
        || (prop_oneof![4 => arb_period(-240, 240), 1 => arb_period(-100_000, 100_000)], prop_oneof![4 => -14..=14i32, 1 => Just(0), 1 => -60..=60i32]),
        |&(a, k), cx| {
            let p = per(a);
            let mp = measure(&p);
            let m = p * k;
            ensure!(measure(&m) == (mp.0 * k as i64, mp.1 * k as i64) && m.unit == p.unit, "{:?} * {k} = {:?}", p, m);
            cx.nontrivial_if(k.abs() > 1 && a.0 != 0);
            let base = match p.unit { TimeUnit::Days | TimeUnit::Weeks => mp.0, _ => mp.1 };
            let possible = k != 0 && (p.length % k == 0 || (matches!(p.unit, TimeUnit::Weeks | TimeUnit::Years) && base % k as i64 == 0));
            let r = quiet(|| p / k);
            let r2 = quiet(|| { let mut x = p; x /= k; x });
            ensure_eq!(r.is_ok(), r2.is_ok(), "{:?} / {k}: the two division operators disagree", p);
            match r {
                Ok(q) => {
                    ensure!(possible, "{:?} / {k} is not exact but gave {:?}", p, q);
                    let mq = measure(&q);
                    ensure_eq!((mq.0 * k as i64, mq.1 * k as i64), mp, "({:?} / {k}) * {k} with {:?} / {k} = {:?}", p, p, q);
                    cx.label("divided");
                    let q2 = r2.unwrap();
                    ensure!(q.length == q2.length && q.unit == q2.unit, "{:?} / {k}: {:?} against {:?}", p, q, q2);
                }
                Err(e) => {
                    cx.label("not divisible");
                    ensure!(!possible, "{:?} / {k} panicked: {e}", p)
                }
            }
            // real-valued views
            let (dv, wv, mv, yv) = (quiet(|| p.days()), quiet(|| p.weeks()), quiet(|| p.months()), quiet(|| p.years()));
            if p.length == 0 {
                for v in [dv, wv, mv, yv] {
                    ensure_eq!(v, Ok(0.0), "a zero period measured in some unit");
                }
            } else if matches!(p.unit, TimeUnit::Days | TimeUnit::Weeks) {
                ensure!(dv == Ok(mp.0 as f64) && wv.as_ref().is_ok_and(|x| (x * 7.0 - mp.0 as f64).abs() < 1e-9), "{:?} in days / weeks: {:?} {:?}", p, dv, wv);
                ensure!(mv.is_err() && yv.is_err(), "{:?} has no exact number of months but gave {:?} / {:?}", p, mv, yv);
            } else {
                ensure!(mv == Ok(mp.1 as f64) && yv.as_ref().is_ok_and(|x| (x * 12.0 - mp.1 as f64).abs() < 1e-9), "{:?} in months / years: {:?} {:?}", p, mv, yv);
                ensure!(dv.is_err() && wv.is_err(), "{:?} has no exact number of days but gave {:?} / {:?}", p, dv, wv);
            }
            Ok(())
        });
    const F: [Frequency; 12] = [
        Frequency::NoFrequency, Frequency::Once, Frequency::Annual, Frequency::Semiannual,
        Frequency::EveryFourthMonth, Frequency::Quarterly, Frequency::Bimonthly, Frequency::Monthly,
        Frequency::EveryFourthWeek, Frequency::Biweekly, Frequency::Weekly, Frequency::Daily,
    ];
    s.exhaust("frequency", (0..12usize).collect(), |&i, cx| {
        let f = F[i];
        let p = Period::from(f);
        ensure_eq!(p.frequency(), f, "frequency of {:?}", p);
        let n: i32 = f.into();
        // n coupons of this period make up a year
        if n > 0 && n != 365 {
            let m = measure(&p);
            ensure!(m.0 * n as i64 == 364 || m.1 * n as i64 == 12, "{:?} gives the tenor {:?}", f, p);
            ensure_eq!(Frequency::from(n), f, "Frequency::from({n})");
        }
        cx.nontrivial();
        Ok(())
    });
    s.exhaust("tenor_frequency", (0..4u8).flat_map(|u| (-400..=400i32).map(move |n| (n, u))).collect(), |&a, cx| {
        let p = per(a);
        let f = match quiet(|| p.frequency()) {
            Ok(f) => f,
            // backwards in time there may be no answer
            Err(_) if a.0 < 0 => return Ok(()),
            Err(e) => return Err(format!("frequency of {p:?}: {e}")),
        };
        let want = match (a.1, a.0.abs()) {
            (3, 0) => Frequency::Once,
            (_, 0) => Frequency::NoFrequency,
            (0, 1) => Frequency::Daily,
            (1, 1) => Frequency::Weekly,
            (1, 2) => Frequency::Biweekly,
            (1, 4) => Frequency::EveryFourthWeek,
            (2, n) if n <= 12 && 12 % n == 0 => F.iter().copied().find(|f| *f as i32 * n == 12 && *f as i32 > 0 && (*f as i32) < 13).unwrap(),
            (3, 1) => Frequency::Annual,
            _ => Frequency::OtherFrequency,
        };
        if a.0 < 0 && f == Frequency::OtherFrequency {
            return Ok(());
        }
        ensure_eq!(f, want, "frequency of {:?}", p);
        cx.nontrivial();
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- P02

/// (min, max) days a period of non-negative length can span
fn span(p: &Period) -> (i64, i64) {
    let n = p.length as i64;
    match p.unit {
        TimeUnit::Days => (n, n),
        TimeUnit::Weeks => (7 * n, 7 * n),
        TimeUnit::Months => (28 * n.max(0) + 31 * n.min(0), 31 * n.max(0) + 28 * n.min(0)),
        _ => (365 * n.max(0) + 366 * n.min(0), 366 * n.max(0) + 365 * n.min(0)),
    }
}

pub fn p02(s: &mut Session) {
    s.rule("Triples of periods in mixed units and of either sign (lengths biased so that spans overlap or coincide) and a start date; non-trivial when two of the periods have different units and neither is zero.");
    // mostly forward; a sign for the triple and one for each keeps pairs of one sign common
    let near = || {
        let size = prop_oneof![
            3 => (0i32..=60, 0u8..4),
            2 => (0i32..=3, -40i32..40).prop_map(|(y, e)| ((365 * y + e).max(0), 0u8)),
            2 => (1i32..=40, -6i32..7).prop_map(|(m, e)| ((30 * m + e).max(0), 0u8)),
            1 => (0i32..=40, -2i32..3).prop_map(|(m, e)| ((4 * m + e).max(0), 1u8)),
            2 => (0i32..=40).prop_map(|m| (m, 2u8)),
            1 => (0i32..=4).prop_map(|m| (12 * m, 2u8)),
            1 => (0i32..=4).prop_map(|m| (m, 3u8)),
            // up to sixty years, about as long in any unit
            2 => (1i32..=58, -2i32..3, 0u8..5, -20i32..21).prop_map(|(y, e, u, f)| match u {
                0 => (365 * y + y / 4 + f, 0u8),
                1 => (52 * y + y / 6 + e, 1),
                2 => (12 * y + e, 2),
                3 => (y, 3),
                _ => ((365 * y + y / 4) / 7 * 7, 0),
            }),
        ];
        (size, prop_oneof![7 => Just(1i32), 1 => Just(-1i32)]).prop_map(|((n, u), s)| (n * s, u))
    };
    // a period and a number of days (or weeks) at one of the bounds of its span, of any length
    let edge = || {
        (1i32..=720, 1u8..4, any::<bool>(), -2i32..3, prop_oneof![1 => Just(0u8), 1 => Just(1u8)]).prop_map(|(n, u, hi, e, v)| {
            let p = (if u == 3 { n % 58 + 1 } else { n }, u);
            let (a, b) = span(&per(p));
            let d = if hi { b } else { a } as i32 + e;
            let q = if v == 1 { (d / 7, 1) } else { (d, 0) };
            (p, q)
        })
    };
    let pair = move || prop_oneof![4 => (near(), near()), 1 => edge(), 1 => edge().prop_map(|(p, q)| (q, p))];
    s.check("order", 60_000, 3_000_000, move || (pair(), near(), arb_date(y0(1970), y1(2090)), any::<bool>()).prop_map(|((a, b), c, s0, neg)| (a, b, c, s0, neg)), |&(a, b, c, s0, neg), cx| {
        use std::cmp::Ordering::*;
        let k = if neg { -1 } else { 1 };
        let (a, b, c) = ((a.0 * k, a.1), (b.0 * k, b.1), (c.0 * k, c.1));
        cx.label_if(a.0 < 0 && b.0 < 0, "two negative periods");
        let (p, q, r) = (per(a), per(b), per(c));
        cx.nontrivial_if(a.1 != b.1 && a.0 != 0 && b.0 != 0);
        let o = p.partial_cmp(&q);
        let rev = q.partial_cmp(&p);
        cx.label(match o { Some(Less) | Some(Greater) => "decided", Some(Equal) => "equal", None => "undecidable" });
        ensure_eq!(rev, o.map(|x| x.reverse()), "{:?} against {:?} compared both ways", p, q);
        ensure!(p.partial_cmp(&p) == Some(Equal), "{:?} is not equal to itself", p);
        let (mp, mq) = (measure(&p), measure(&q));
        let want = if a.0 == 0 || b.0 == 0 {
            Some(a.0.cmp(&b.0))
        } else if (a.1 < 2) == (b.1 < 2) {
            Some(mp.cmp(&mq))
        } else {
            let (sp, sq) = (span(&p), span(&q));
            if sp.1 < sq.0 { Some(Less) } else if sp.0 > sq.1 { Some(Greater) } else { None }
        };
        match want {
            Some(w) => ensure_eq!(o, Some(w), "comparison of {:?} with {:?}", p, q),
            None => ensure!(o.is_none(), "{:?} and {:?} cannot be ranked (spans {:?} and {:?} days) but compare as {:?}", p, q, span(&p), span(&q), o),
        }
        ensure_eq!(p == q, o == Some(Equal), "{:?} == {:?}", p, q);
        // a decided comparison holds from every start date
        let d = date(s0);
        match o {
            Some(Less) => ensure!(d + p < d + q, "{:?} < {:?} but from {} they end {:?} and {:?}", p, q, show(s0), d + p, d + q),
            Some(Greater) => ensure!(d + p > d + q, "{:?} > {:?} but from {} they end {:?} and {:?}", p, q, show(s0), d + p, d + q),
            Some(Equal) => ensure!(d + p == d + q, "{:?} == {:?} but from {} they end {:?} and {:?}", p, q, show(s0), d + p, d + q),
            None => {}
        }
        // transitivity
        if p <= q && q <= r {
            ensure!(p <= r || p.partial_cmp(&r).is_none(), "{:?} <= {:?} <= {:?} but {:?} > {:?}", p, q, r, p, r);
        }
        // the documented day bounds hold from this date
        let (lo, hi) = p.days_min_max();
        let n = (d + p) - d;
        if a.1 < 2 {
            ensure_eq!((lo, hi), (n, n), "bounds of {:?}", p);
        }
        ensure!(lo <= n && n <= hi, "{:?} from {} is {n} days, outside its bounds [{lo}, {hi}]", p, show(s0));
        Ok(())
    });
    // all nine units, including those shorter than a day: equal values are interchangeable as map keys
    const ALL: [TimeUnit; 9] = [
        TimeUnit::Days, TimeUnit::Weeks, TimeUnit::Months, TimeUnit::Years, TimeUnit::Hours, TimeUnit::Minutes, TimeUnit::Seconds,
        TimeUnit::Milliseconds, TimeUnit::Microseconds,
    ];
    s.check("every_unit", 20_000, 500_000,
        || (prop_oneof![1 => Just(0i32), 2 => -3i32..4, 1 => -50i32..50], 0u8..9, prop_oneof![1 => Just(0i32), 2 => -3i32..4, 1 => -50i32..50], 0u8..9),
        |&(a, u, b, w), cx| {
            let (p, q) = (Period::new(a, ALL[u as usize]), Period::new(b, ALL[w as usize]));
            cx.nontrivial_if(u > 3 || w > 3);
            ensure!(p == p && h(&p) == h(&p), "{:?} is not equal to itself", p);
            if a == 0 && b == 0 || u == w {
                ensure_eq!(p == q, a == b, "{:?} == {:?}", p, q);
                ensure_eq!(p.partial_cmp(&q), Some(a.cmp(&b)), "{:?} against {:?}", p, q);
            }
            if let Ok(true) = quiet(|| p == q) {
                cx.label("equal pair in any unit");
                ensure_eq!(h(&p), h(&q), "hash of the equal periods {:?} and {:?}", p, q);
            }
            Ok(())
        });
}

// ---------------------------------------------------------------------------------------- I01

const CODES: &str = "FGHJKMNQUVXZ";

fn is_imm(s: i32, main: bool) -> bool {
    let (y, m, _) = ymd(s);
    nth_wday(3, 4, y, m) == s && (!main || m % 3 == 0)
}
fn next_imm(s: i32, main: bool) -> i32 {
    (s + 1..).find(|&k| is_imm(k, main)).unwrap()
}
fn imm_code(s: i32) -> String {
    let (y, m, _) = ymd(s);
    format!("{}{}", &CODES[m as usize - 1..m as usize], y % 10)
}

pub fn i01(s: &mut Session) {
    s.rule("Every day of 1901-2198 is enumerated (by year) for the date queries; codes, reference dates and arbitrary strings (including non-ASCII) are generated. Non-trivial: code queries whose answer lies in another decade year than the reference, or strings of two bytes.");
    s.exhaust("dates", (1901..2199).collect::<Vec<i32>>(), |&y, cx| {
        let imm = IMM::new(PricingContext::new(date(y0(2000))));
        let mut next = [next_imm(y0(y), false), next_imm(y0(y), true)];
        for k in y0(y)..=y1(y) {
            let d = date(k);
            for (j, main) in [false, true].into_iter().enumerate() {
                ensure_eq!(imm.is_imm_date(&d, main), is_imm(k, main), "is_imm_date({}, main cycle {main})", show(k));
                if next[j] <= k {
                    next[j] = next_imm(k, main);
                }
                ensure_eq!(show(ser(&imm.next_date(&d, main))), show(next[j]), "next_date({}, main cycle {main})", show(k));
            }
            if is_imm(k, false) {
                ensure_eq!(imm.code(&d), imm_code(k), "code({})", show(k));
                ensure_eq!(imm.next_code(&d, false), imm_code(next[0]), "next_code({})", show(k));
                ensure_eq!(imm.next_code(&d, true), imm_code(next[1]), "next_code({})", show(k));
            } else {
                ensure!(quiet(|| imm.code(&d)).is_err(), "code({}) accepted a date that is not an IMM date", show(k));
            }
        }
        cx.inner(366 * 5);
        cx.nontrivial();
        Ok(())
    });
    s.check("codes", 20_000, 500_000,
        || (0usize..12, 0i32..10, any::<bool>(), arb_date(y0(1901), y1(2187)), any::<bool>(), any::<bool>()),
        |&(m, dg, upper, r, use_default, main), cx| {
            let mut code = format!("{}{}", &CODES[m..m + 1], dg);
            if !upper {
                code = code.to_lowercase();
            }
            // first IMM date of that month and year digit on or after the reference date
            let (ry, _, _) = ymd(r);
            let want = (ry..=ry + 10)
                .filter(|y| y % 10 == dg)
                .map(|y| nth_wday(3, 4, y, m as u32 + 1))
                .find(|k| *k >= r)
                .unwrap();
            cx.nontrivial_if(ymd(want).0 != ry);
            let (imm, refd) = if use_default {
                (IMM::new(PricingContext::new(date(r))), Date::default())
            } else {
                (IMM::new(PricingContext::new(date(y0(2050)))), date(r))
            };
            ensure!(imm.is_imm_code(&code, false), "{code} is not recognised as an IMM code");
            ensure_eq!(imm.is_imm_code(&code, true), (m + 1) % 3 == 0, "is_imm_code({code}, main cycle)");
            let got = call("IMM::date", || imm.date(&code, &refd))?;
            ensure_eq!(show(ser(&got)), show(want), "date({code}) on or after {}", show(r));
            ensure_eq!(imm.code(&got), imm_code(want), "code of date({code})");
            let nx = imm.next_date_from_code(&code, main, &refd);
            ensure_eq!(show(ser(&nx)), show(next_imm(want, main)), "next_date_from_code({code}, {main}) from {}", show(r));
            ensure_eq!(imm.next_code_from_code(&code, main, &refd), imm_code(next_imm(want, main)), "next_code_from_code({code}, {main}) from {}", show(r));
            let n2 = imm.next_date(&refd, main);
            ensure_eq!(show(ser(&n2)), show(next_imm(r, main)), "next_date from {}", show(r));
            Ok(())
        });
    s.check("strings", 20_000, 500_000,
        || prop_oneof![
            2 => "[A-Za-z0-9]{0,3}",
            2 => "[fghjkmnquvxzFGHJKMNQUVXZ][0-9]",
            1 => "\\PC{0,2}",
            1 => "[a-z]\\PC",
            1 => "[éüß٣߀][0-9]?",
        ],
        |t, cx| {
            let imm = IMM::new(PricingContext::new(date(y0(2020))));
            let cs: Vec<char> = t.chars().collect();
            for main in [false, true] {
                let set = if main { "HMUZ" } else { CODES };
                let want = cs.len() == 2 && cs[1].is_ascii_digit() && cs[0].is_ascii_alphabetic() && set.contains(cs[0].to_ascii_uppercase());
                let got = call(&format!("is_imm_code({t:?})"), || imm.is_imm_code(t, main))?;
                ensure_eq!(got, want, "is_imm_code({t:?}, main cycle {main})");
                if !want && !main {
                    ensure!(quiet(|| imm.date(t, &date(y0(2020)))).is_err(), "date({t:?}) accepted an invalid code");
                }
            }
            cx.nontrivial_if(t.len() == 2);
            cx.label_if(!t.is_ascii(), "non-ASCII");
            Ok(())
        });
    let _ = Month::January;
}
