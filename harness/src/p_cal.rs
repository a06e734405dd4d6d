use std::collections::{BTreeMap, BTreeSet};

use proptest::collection::vec;
use proptest::prelude::*;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention::{self, *};
use rust_quantlib::datetime::calendar::{self, Calendar};
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::holiday;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit;
use serde::{Deserialize, Serialize};

use crate::civil::*;
use crate::engine::*;
use crate::holidays_ref as href;
use crate::p_dates::{same_date, UNITS};

pub const CONV: [BusinessDayConvention; 7] = [
    Following, ModifiedFollowing, Preceding, ModifiedPreceding, Unadjusted, HalfMonthModifiedFollowing, Nearest,
];

/// A market and user overrides: (first day, run length, add?) applied in order
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CalSpec {
    pub market: u8,
    pub ov: Vec<(i32, u8, bool)>,
}

/// Reference calendar: the market's rules and a map of overridden days
pub struct CalModel {
    pub market: u8,
    pub ov: BTreeMap<i32, bool>,
}

impl CalModel {
    pub fn business(&self, s: i32) -> bool {
        match self.ov.get(&s) {
            Some(b) => *b,
            None => href::is_business(self.market, s),
        }
    }
    pub fn next(&self, s: i32) -> i32 {
        (s..).find(|k| self.business(*k)).unwrap()
    }
    pub fn prev(&self, s: i32) -> i32 {
        (0..).map(|i| s - i).find(|k| self.business(*k)).unwrap()
    }
    pub fn adjust(&self, s: i32, c: BusinessDayConvention) -> i32 {
        let same = |a: i32, b: i32| ymd(a).1 == ymd(b).1 && ymd(a).0 == ymd(b).0;
        let (f, p) = (self.next(s), self.prev(s));
        match c {
            Unadjusted => s,
            Following => f,
            Preceding => p,
            ModifiedFollowing => if same(f, s) { f } else { p },
            ModifiedPreceding => if same(p, s) { p } else { f },
            HalfMonthModifiedFollowing => {
                let crosses_mid = ymd(s).2 <= 15 && ymd(f).2 > 15;
                if same(f, s) && !crosses_mid { f } else { p }
            }
            Nearest => if f - s <= s - p { f } else { p },
        }
    }
    /// last business day on or before the end of the month of s
    pub fn month_end(&self, s: i32) -> i32 {
        self.prev(eom(s))
    }
    /// no business day is left in the month after s
    pub fn is_month_end(&self, s: i32) -> bool {
        let n = self.next(s + 1);
        (ymd(n).0, ymd(n).1) != (ymd(s).0, ymd(s).1)
    }
    pub fn advance(&self, s: i32, n: i32, unit: u8, c: BusinessDayConvention, eom_flag: bool) -> i32 {
        if n == 0 {
            return self.adjust(s, c);
        }
        if unit == 0 {
            let mut d = s;
            for _ in 0..n.abs() {
                d = if n > 0 { self.next(d + 1) } else { self.prev(d - 1) };
            }
            return d;
        }
        let t = add_unit(s, n, unit);
        if unit >= 2 && eom_flag && self.is_month_end(s) {
            return self.month_end(t);
        }
        self.adjust(t, c)
    }
}

impl CalSpec {
    pub fn build(&self) -> (Calendar, CalModel) {
        let mut c = href::calendar(self.market);
        let mut m = CalModel { market: self.market, ov: BTreeMap::new() };
        for &(s, len, add) in &self.ov {
            for k in s..s + len as i32 {
                if add {
                    c.add_holiday(date(k));
                } else {
                    c.remove_holiday(date(k));
                }
                m.ov.insert(k, !add);
            }
        }
        (c, m)
    }
    pub fn plain(market: u8) -> Self {
        CalSpec { market, ov: vec![] }
    }
}

/// a market, possibly with overrides near `around`
pub fn arb_cal(around: impl Strategy<Value = i32> + Clone + 'static) -> impl Strategy<Value = (CalSpec, i32)> + Clone {
    arb_cal_runs(around, 1u8..12)
}

/// with closed or open runs of up to two months now and then
fn arb_cal_long(around: impl Strategy<Value = i32> + Clone + 'static) -> impl Strategy<Value = (CalSpec, i32)> + Clone {
    arb_cal_runs(around, prop_oneof![12 => 1u8..12, 1 => 12u8..60])
}

fn arb_cal_runs(around: impl Strategy<Value = i32> + Clone + 'static, run: impl Strategy<Value = u8> + Clone + 'static) -> impl Strategy<Value = (CalSpec, i32)> + Clone {
    (0..href::N, around, vec((-45i32..45, run, prop::bool::weighted(0.75)), 0..6), prop::bool::weighted(0.6))
        .prop_map(|(market, s, ov, with)| {
            let ov = if with { ov.into_iter().map(|(o, l, a)| (s + o, l, a)).collect() } else { vec![] };
            (CalSpec { market, ov }, s)
        })
}

fn lab(cx: &Cx, c: BusinessDayConvention) {
    cx.label(match c {
        Following => "Following",
        ModifiedFollowing => "ModifiedFollowing",
        Preceding => "Preceding",
        ModifiedPreceding => "ModifiedPreceding",
        Unadjusted => "Unadjusted",
        HalfMonthModifiedFollowing => "HalfMonthModifiedFollowing",
        Nearest => "Nearest",
    })
}

// ---------------------------------------------------------------------------------------- C01

pub fn c01(s: &mut Session) {
    s.rule("Every year 1900-2199 is enumerated for both churches and both public entry points and compared with the Gregorian and Julian computus; all are non-trivial. Years outside the range are generated.");
    s.exhaust("easter", (1900..2200).collect::<Vec<i32>>(), |&y, cx| {
        let w = (easter(y) + 1 - y0(y) + 1) as u32;
        let o = (easter_orthodox(y) + 1 - y0(y) + 1) as u32;
        ensure_eq!(calendar::easter_monday(y), w, "day of year of Easter Monday {y}");
        ensure_eq!(holiday::easter_monday(y), w, "day of year of Easter Monday {y} (holiday rules)");
        ensure_eq!(calendar::easter_monday_orthodox(y), o, "day of year of Orthodox Easter Monday {y}");
        ensure_eq!(holiday::easter_monday_orthodox(y), o, "day of year of Orthodox Easter Monday {y} (holiday rules)");
        cx.inner(4);
        cx.nontrivial();
        Ok(())
    });
    s.check("range", 500, 5000, || prop_oneof![0..1900i32, 2200..4000i32, -100..0i32], |&y, cx| {
        cx.nontrivial();
        ensure!(quiet(|| calendar::easter_monday(y)).is_err(), "easter_monday({y}) accepted");
        ensure!(quiet(|| calendar::easter_monday_orthodox(y)).is_err(), "easter_monday_orthodox({y}) accepted");
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- C02

pub fn c02(s: &mut Session) {
    s.rule("Every day of 1900-2199 in each of the 18 calendars is enumerated (by market and year) and compared with holidays generated from the market's rules; a market-year is non-trivial when it has at least one holiday on a weekday.");
    s.assume("The reference rules restate the holiday lists documented in the calendars' source comments (observed-day shifts, first years, one-off closings), with Easter from the computus and the Japanese equinoxes from their astronomical approximation.");
    let items: Vec<(u8, i32)> = (1900..2200).flat_map(|y| (0..href::N).map(move |m| (m, y))).collect();
    s.exhaust("rules", items, |&(m, y), cx| {
        let c = href::calendar(m);
        let mut hol = 0;
        for k in y0(y)..=y1(y) {
            let d = date(k);
            let want = !href::is_business(m, k);
            ensure_eq!(c.is_holiday(&d), want, "{}: is {} ({:?}) a holiday", href::NAMES[m as usize], show(k), d.weekday());
            if want && !href::is_weekend(m, k) {
                hol += 1;
            }
        }
        cx.inner((y1(y) - y0(y) + 1) as u64);
        cx.nontrivial_if(hol > 0);
        Ok(())
    });
    s.exhaust("weekends", (0..href::N).collect::<Vec<u8>>(), |&m, cx| {
        let c = href::calendar(m);
        ensure_eq!(c.name(), href::NAMES[m as usize], "name of calendar {m}");
        for k in 1..8 {
            ensure_eq!(c.is_weekend(WEEKDAYS[wday(k) as usize - 1]), href::is_weekend(m, k), "{}: weekend on {:?}", c.name(), WEEKDAYS[wday(k) as usize - 1]);
        }
        cx.nontrivial_if(m > 0);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- C03

pub fn c03(s: &mut Session) {
    s.rule("Histories of 1-14 override operations (add, remove, reset, clone-and-diverge) on dates near an anchor, biased to repeat dates and to hit weekends and genuine holidays; after every operation all queries about a 40-day window are compared with a map model. Non-trivial when some date is overridden at least twice or a genuine holiday is removed.");
    s.check("history", 4000, 150_000,
        || (0..href::N, prop_oneof![2 => arb_date(y0(1950), y1(2150)), 1 => (1990..2030i32).prop_map(|y| serial(y, 12, 26))], {
            let op = || (0u8..12, prop_oneof![20 => -14..14i32, 1 => -19..20i32]);
            prop_oneof![12 => vec(op(), 1..14), 1 => vec(op(), 14..60)]
        }),
        |(market, a, ops), cx| {
            let base_b = |k: i32| href::is_business(*market, k);
            let mut cal = href::calendar(*market);
            let mut ov: BTreeMap<i32, bool> = BTreeMap::new();
            let mut other: Option<(Calendar, BTreeMap<i32, bool>)> = None;
            let mut touched: BTreeMap<i32, u32> = BTreeMap::new();
            for (step, &(op, off)) in ops.iter().enumerate() {
                let k = a + off;
                match op {
                    0..=4 => {
                        cal.add_holiday(date(k));
                        ov.insert(k, false);
                        *touched.entry(k).or_insert(0) += 1;
                    }
                    5..=9 => {
                        cal.remove_holiday(date(k));
                        ov.insert(k, true);
                        *touched.entry(k).or_insert(0) += 1;
                        cx.nontrivial_if(!base_b(k));
                    }
                    10 => {
                        cal.reset_added_and_removed_holidays();
                        ov.clear();
                        cx.label("reset");
                    }
                    _ => {
                        let c2 = cal.clone();
                        let o2 = ov.clone();
                        // continue with the clone, keep the original aside: they must not interact
                        other = Some((std::mem::replace(&mut cal, c2), o2));
                        cx.label("clone");
                    }
                }
                check_window(&cal, *market, &ov, *a, &format!("after step {step}"))?;
                if let Some((c, o)) = &other {
                    check_window(c, *market, o, *a, &format!("original of a clone, after step {step}"))?;
                }
            }
            cx.nontrivial_if(touched.values().any(|n| *n > 1));
            Ok(())
        });
    // overriding everywhere in the supported range, isolated dates
    s.check("single", 4000, 100_000, || (0..href::N, arb_date(MIN + 40, MAX - 40), any::<bool>()), |&(market, k, add), cx| {
        let mut c = href::calendar(market);
        let b = href::is_business(market, k);
        cx.nontrivial_if(b == add);
        if add { c.add_holiday(date(k)) } else { c.remove_holiday(date(k)) }
        ensure_eq!(c.is_holiday(&date(k)), add, "{}: {} after {}", href::NAMES[market as usize], show(k), if add { "add_holiday" } else { "remove_holiday" });
        for j in [k - 1, k + 1, k - 7, k + 7] {
            ensure_eq!(c.is_holiday(&date(j)), !href::is_business(market, j), "{}: {} after overriding {}", href::NAMES[market as usize], show(j), show(k));
        }
        if add { c.remove_holiday(date(k)) } else { c.add_holiday(date(k)) }
        ensure_eq!(c.is_holiday(&date(k)), !add, "{}: {} after overriding it both ways", href::NAMES[market as usize], show(k));
        c.reset_added_and_removed_holidays();
        ensure_eq!(c.is_holiday(&date(k)), !b, "{}: {} after reset", href::NAMES[market as usize], show(k));
        Ok(())
    });
}

fn check_window(cal: &Calendar, market: u8, ov: &BTreeMap<i32, bool>, a: i32, when: &str) -> Res {
    let model = CalModel { market, ov: ov.clone() };
    let (lo, hi) = (a - 20, a + 20);
    let name = href::NAMES[market as usize];
    for k in lo..=hi {
        ensure_eq!(cal.is_holiday(&date(k)), !model.business(k), "{name}, {when}: is {} a holiday", show(k));
    }
    let ser_list = |v: Vec<Date>| v.iter().map(ser).collect::<Vec<_>>();
    let bus: Vec<i32> = (lo..=hi).filter(|k| model.business(*k)).collect();
    let hol: Vec<i32> = (lo..=hi).filter(|k| !model.business(*k)).collect();
    let holw: Vec<i32> = hol.iter().copied().filter(|k| !href::is_weekend(market, *k)).collect();
    ensure_eq!(shows(&ser_list(cal.business_day_list(date(lo), date(hi)))), shows(&bus), "{name}, {when}: business days");
    ensure_eq!(shows(&ser_list(cal.holiday_list(date(lo), date(hi), true))), shows(&hol), "{name}, {when}: holidays with weekends");
    ensure_eq!(shows(&ser_list(cal.holiday_list(date(lo), date(hi), false))), shows(&holw), "{name}, {when}: holidays without weekends");
    ensure_eq!(cal.business_days_between(date(lo), date(hi), true, true), bus.len() as i32, "{name}, {when}: number of business days");
    // only days whose status really changes are listed as overrides
    let added: BTreeSet<i32> = ov.iter().filter(|(k, b)| !**b && href::is_business(market, **k)).map(|(k, _)| *k).collect();
    let removed: BTreeSet<i32> = ov.iter().filter(|(k, b)| **b && !href::is_business(market, **k)).map(|(k, _)| *k).collect();
    ensure_eq!(cal.added_holidays().iter().map(ser).collect::<BTreeSet<_>>(), added, "{name}, {when}: set of added holidays");
    ensure_eq!(cal.removed_holidays().iter().map(ser).collect::<BTreeSet<_>>(), removed, "{name}, {when}: set of removed holidays");
    for c in CONV {
        let k = a + 1;
        ensure_eq!(show(ser(&cal.adjust(date(k), c))), show(model.adjust(k, c)), "{name}, {when}: {} adjusted {:?}", show(k), c);
    }
    ensure_eq!(show(ser(&cal.advance_by_days_with_following(date(a), 5, TimeUnit::Days, false))), show(model.advance(a, 5, 0, Following, false)), "{name}, {when}: {} plus 5 business days", show(a));
    ensure_eq!(show(ser(&cal.end_of_month(&date(a)))), show(model.month_end(a)), "{name}, {when}: last business day of the month of {}", show(a));
    Ok(())
}

// ---------------------------------------------------------------------------------------- C04

pub fn c04(s: &mut Session) {
    s.rule("A market with up to five override runs near a date (so that long holiday runs, runs across month ends and mid-month occur), every convention; non-trivial when the date is a holiday.");
    s.check("adjust", 15_000, 1_000_000, || arb_cal_long(arb_date(y0(1902), y1(2197))), |(spec, a), cx| {
        let (c, m) = spec.build();
        for k in [*a, a - 1, a + 3] {
            cx.nontrivial_if(!m.business(k));
            let d = date(k);
            for cv in CONV {
                let r = c.adjust(d, cv);
                let want = m.adjust(k, cv);
                if want != k {
                    lab(cx, cv);
                }
                ensure_eq!(show(ser(&r)), show(want), "{}: {} adjusted {:?}", href::NAMES[spec.market as usize], show(k), cv);
                same_date(&r, want, "adjust")?;
                if cv != Unadjusted {
                    ensure!(!c.is_holiday(&r), "{}: {} adjusted {:?} is {:?}, a holiday", href::NAMES[spec.market as usize], show(k), cv, r);
                    ensure!(c.adjust(r, cv) == r, "adjusting twice with {:?} moves {:?}", cv, r);
                }
                if m.business(k) {
                    ensure!(r == d, "{} is a business day but adjusts to {:?}", show(k), r);
                }
                cx.inner(1);
            }
            ensure!(c.adjust_with_following(d) == c.adjust(d, Following), "adjust_with_following({})", show(k));
        }
        Ok(())
    });
    let items: Vec<(u8, i32)> = (1970..2060).flat_map(|y| (0..href::N).map(move |m| (m, y))).collect();
    s.exhaust("plain", items, |&(m, y), cx| {
        let (c, md) = CalSpec::plain(m).build();
        for k in y0(y)..=y1(y) {
            if !md.business(k) {
                for cv in CONV {
                    ensure_eq!(show(ser(&c.adjust(date(k), cv))), show(md.adjust(k, cv)), "{}: {} adjusted {:?}", href::NAMES[m as usize], show(k), cv);
                    cx.inner(1);
                }
                cx.nontrivial();
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- C05

pub fn c05(s: &mut Session) {
    s.rule("A market with overrides, a date, a signed length in days, weeks, months or years, a convention and the end-of-month flag; non-trivial when the calendar changes the plain result (a holiday is skipped or adjusted) or end-of-month applies.");
    s.check("advance", 25_000, 1_500_000,
        || (arb_cal_long(arb_date(y0(1945), y1(2155))), prop_oneof![9 => -40..=40i32, 3 => -500..=500i32, 3 => -2..=2i32, 1 => -2500..=2500i32], 0u8..4, 0usize..7, any::<bool>()),
        |((spec, a), n, unit, cv, eomf), cx| {
            let (c, m) = spec.build();
            let n = if n.abs() > 500 && *unit > 0 { n / 5 } else { *n };
            let (n, unit) = (if *unit == 3 { n / 12 } else { n }, *unit);
            let cv = CONV[*cv];
            let d = date(*a);
            let want = m.advance(*a, n, unit, cv, *eomf);
            cx.nontrivial_if(want != add_unit(*a, n, unit));
            if unit >= 2 && *eomf && n != 0 && m.is_month_end(*a) {
                cx.label("end of month applies");
            }
            cx.label(["days", "weeks", "months", "years"][unit as usize]);
            let nm = href::NAMES[spec.market as usize];
            let what = format!("{nm}: {} advanced by {:?} ({:?}, end of month {eomf})", show(*a), Period::new(n, UNITS[unit as usize]), cv);
            let r = c.advance_by_days(d, n, UNITS[unit as usize], cv, *eomf);
            ensure_eq!(show(ser(&r)), show(want), "{what}");
            same_date(&r, want, "advance")?;
            let p = Period::new(n, UNITS[unit as usize]);
            ensure!(c.advance_by_period(d, p, cv, *eomf) == r, "{what}: by period gives {:?}", c.advance_by_period(d, p, cv, *eomf));
            if cv == Following {
                ensure!(c.advance_by_days_with_following(d, n, UNITS[unit as usize], *eomf) == r, "{what}: default convention");
                ensure!(c.advance_by_period_with_following(d, p, *eomf) == r, "{what}: default convention, by period");
            }
            if cv != Unadjusted || (unit == 0 && n != 0) {
                ensure!(!c.is_holiday(&r), "{what} is a holiday");
            }
            if unit == 0 && n != 0 {
                // exactly |n| business days are stepped over, and the step can be undone
                ensure_eq!(c.business_days_between(d, r, false, true), n, "{what}: business days in between");
                if m.business(*a) {
                    let back = c.advance_by_days(r, -n, TimeUnit::Days, cv, *eomf);
                    ensure!(back == d, "{what}: stepping back gives {:?}", back);
                }
            }
            Ok(())
        });
}

// ---------------------------------------------------------------------------------------- C06

pub fn c06(s: &mut Session) {
    s.rule("A market with overrides and two dates up to 200 days apart in either order (zero included), both inclusion flags; non-trivial when the dates differ and at least one end point is a business day.");
    s.check("count", 15_000, 600_000,
        || (arb_cal_long(arb_date(y0(1914), y1(2185))), prop_oneof![32 => -200..200i32, 8 => -3..=3i32, 8 => Just(0), 1 => -4000..4000i32], any::<bool>(), any::<bool>(), prop_oneof![24 => 0..60i32, 1 => 60..1000i32]),
        |((spec, a), n, f, l, gap), cx| {
            let (c, m) = spec.build();
            let b = a + n;
            let (lo, hi) = (*a.min(&b), *a.max(&b));
            cx.nontrivial_if(*n != 0 && (m.business(*a) || m.business(b)));
            let mut want = (lo..=hi).filter(|k| m.business(*k)).count() as i32;
            if *a == b {
                want = i32::from(*f && *l && m.business(*a));
            } else {
                if m.business(*a) && !f { want -= 1 }
                if m.business(b) && !l { want -= 1 }
                if *a > b { want = -want }
            }
            let nm = href::NAMES[spec.market as usize];
            let got = c.business_days_between(date(*a), date(b), *f, *l);
            ensure_eq!(got, want, "{nm}: business days from {} to {} (include first {f}, last {l})", show(*a), show(b));
            // antisymmetric, additive
            ensure_eq!(c.business_days_between(date(b), date(*a), *l, *f), if *a == b { got } else { -got }, "{nm}: counting from {} back to {}", show(b), show(*a));
            let z = hi + gap;
            ensure_eq!(c.business_days_between(date(lo), date(hi), true, false) + c.business_days_between(date(hi), date(z), true, false),
                c.business_days_between(date(lo), date(z), true, false), "{nm}: count {} - {} - {} is not additive", show(lo), show(hi), show(z));
            // lists
            let bl: Vec<i32> = c.business_day_list(date(lo), date(hi)).iter().map(ser).collect();
            let hl: Vec<i32> = c.holiday_list(date(lo), date(hi), true).iter().map(ser).collect();
            let hw: Vec<i32> = c.holiday_list(date(lo), date(hi), false).iter().map(ser).collect();
            ensure_eq!(shows(&bl), shows(&(lo..=hi).filter(|k| m.business(*k)).collect::<Vec<_>>()), "{nm}: business day list");
            ensure_eq!(shows(&hl), shows(&(lo..=hi).filter(|k| !m.business(*k)).collect::<Vec<_>>()), "{nm}: holiday list");
            ensure_eq!(shows(&hw), shows(&(lo..=hi).filter(|k| !m.business(*k) && !href::is_weekend(spec.market, *k)).collect::<Vec<_>>()), "{nm}: holiday list without weekends");
            if lo < hi {
                ensure!(quiet(|| c.business_day_list(date(hi), date(lo))).is_err(), "business_day_list accepted reversed dates");
                ensure!(quiet(|| c.holiday_list(date(hi), date(lo), true)).is_err(), "holiday_list accepted reversed dates");
            }
            Ok(())
        });
    s.exhaust("range_ends", (0..href::N).collect::<Vec<u8>>(), |&mk, cx| {
        let c = href::calendar(mk);
        for (lo, hi) in [(MIN, MIN + 30), (MAX - 30, MAX)] {
            let bl = call("business_day_list", || c.business_day_list(date(lo), date(hi)))?;
            ensure_eq!(bl.iter().map(ser).collect::<Vec<_>>(), (lo..=hi).filter(|k| href::is_business(mk, *k)).collect::<Vec<_>>(), "{}: business days {} - {}", c.name(), show(lo), show(hi));
            let hl = call("holiday_list", || c.holiday_list(date(lo), date(hi), true))?;
            ensure_eq!(hl.len() + bl.len(), (hi - lo + 1) as usize, "{}: days of {} - {}", c.name(), show(lo), show(hi));
            let n = call("business_days_between", || c.business_days_between(date(lo), date(hi), true, true))?;
            ensure_eq!(n, bl.len() as i32, "{}: count {} - {}", c.name(), show(lo), show(hi));
        }
        cx.nontrivial();
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- C07

pub fn c07(s: &mut Session) {
    s.rule("Every day of 1960-2060 in every market is enumerated without overrides, and dates near the month end with overrides are generated; non-trivial when the last calendar day of the month is a holiday.");
    let items: Vec<(u8, i32)> = (1960..2060).flat_map(|y| (0..href::N).map(move |m| (m, y))).collect();
    let body = |c: &Calendar, m: &CalModel, k: i32, cx: &Cx| -> Res {
        let d = date(k);
        cx.nontrivial_if(!m.business(eom(k)));
        ensure_eq!(show(ser(&c.end_of_month(&d))), show(m.month_end(k)), "{}: last business day of the month of {}", c.name(), show(k));
        ensure_eq!(c.is_end_of_month(&d), m.is_month_end(k), "{}: is {} at the end of the month", c.name(), show(k));
        Ok(())
    };
    s.exhaust("plain", items, |&(mk, y), cx| {
        let (c, m) = CalSpec::plain(mk).build();
        for k in y0(y)..=y1(y) {
            body(&c, &m, k, cx)?;
            cx.inner(2);
        }
        Ok(())
    });
    s.check("overrides", 12_000, 500_000,
        || arb_cal_long((1905..2195i32, 1u32..=12, 0..9i32).prop_map(|(y, m, b)| serial(y, m, mlen(y, m)) - b)),
        |(spec, a), cx| {
            let (c, m) = spec.build();
            for k in a - 2..=a + 2 {
                body(&c, &m, k, cx)?;
            }
            Ok(())
        });
}
