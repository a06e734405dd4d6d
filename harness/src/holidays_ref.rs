//! Reference holiday rules, one generator per market: each produces the set of non-weekend-rule
//! holidays of a year as *dates built from the rules* (fixed day, n-th weekday, Easter offset,
//! observed-day shift, one-off closings), rather than as a predicate on a date.
use crate::civil::*;
use rust_quantlib::datetime::calendar::Calendar;
use rust_quantlib::datetime::holidays::brazil::Brazil;
use rust_quantlib::datetime::holidays::italy::Italy;
use rust_quantlib::datetime::holidays::japan::Japan;
use rust_quantlib::datetime::holidays::nilholiday::NilHoliday;
use rust_quantlib::datetime::holidays::switzerland::Switzerland;
use rust_quantlib::datetime::holidays::target::Target;
use rust_quantlib::datetime::holidays::unitedkingdom::UnitedKingdom;
use rust_quantlib::datetime::holidays::unitedstates::UnitedStates;
use rust_quantlib::datetime::holidays::weekendsonly::WeekendsOnly;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub const N: u8 = 18;
pub const NAMES: [&str; 18] = [
    "Null", "weekends only", "TARGET", "Switzerland", "Brazil", "BOVESPA", "Italian settlement",
    "Milan stock exchange", "Japan", "UK settlement", "London stock exchange", "London metals exchange",
    "US settlement", "US with Libor impact", "New York stock exchange", "US government bond market",
    "North American Energy Reliability Council", "Federal Reserve Bankwire System",
];

pub fn calendar(m: u8) -> Calendar {
    match m {
        0 => NilHoliday::new(),
        1 => WeekendsOnly::new(),
        2 => Target::new(),
        3 => Switzerland::new(),
        4 => Brazil::new(),
        5 => Brazil::exchange(),
        6 => Italy::new(),
        7 => Italy::exchange(),
        8 => Japan::new(),
        9 => UnitedKingdom::new(),
        10 => UnitedKingdom::exchange(),
        11 => UnitedKingdom::metals(),
        12 => UnitedStates::settlement(),
        13 => UnitedStates::libor_impact(),
        14 => UnitedStates::nyse(),
        15 => UnitedStates::government_bond(),
        16 => UnitedStates::nerc(),
        _ => UnitedStates::federal_reserve(),
    }
}

const SUN: u32 = 1;
const MON: u32 = 2;
const TUE: u32 = 3;
const WED: u32 = 4;
const THU: u32 = 5;
const FRI: u32 = 6;
const SAT: u32 = 7;

struct Y {
    y: i32,
    out: HashSet<i32>,
}

impl Y {
    fn fix(&mut self, m: u32, d: u32) {
        self.out.insert(serial(self.y, m, d));
    }
    fn fix_if(&mut self, c: bool, m: u32, d: u32) {
        if c {
            self.fix(m, d)
        }
    }
    /// the day itself and, if it is a Sunday, the Monday after
    fn sun_mon(&mut self, m: u32, d: u32) {
        let s = serial(self.y, m, d);
        self.out.insert(s);
        if wday(s) == SUN {
            self.out.insert(s + 1);
        }
    }
    /// as sun_mon and, if it is a Saturday, the Friday before
    fn observed(&mut self, m: u32, d: u32) {
        self.sun_mon(m, d);
        let s = serial(self.y, m, d);
        if wday(s) == SAT {
            self.out.insert(s - 1);
        }
    }
    fn nth(&mut self, n: u32, w: u32, m: u32) {
        self.out.insert(nth_wday(n, w, self.y, m));
    }
    fn last(&mut self, w: u32, m: u32) {
        let e = serial(self.y, m, mlen(self.y, m));
        let k = (0..7).map(|i| e - i).find(|k| wday(*k) == w).unwrap();
        self.out.insert(k);
    }
    /// offset from Easter Sunday
    fn east(&mut self, off: i32) {
        self.out.insert(easter(self.y) + off);
    }
    fn on(&mut self, y: i32, m: u32, d: u32) {
        if self.y == y {
            self.fix(m, d);
        }
    }
}

fn uk(h: &mut Y) {
    let y = h.y;
    // New Year's Day, substituted by the following Monday
    h.fix(1, 1);
    for d in [2, 3] {
        if wday(serial(y, 1, d)) == MON {
            h.fix(1, d);
        }
    }
    h.east(-2);
    h.east(1);
    if y == 1995 || y == 2020 { h.fix(5, 8) } else { h.nth(1, MON, 5) }
    match y {
        2002 => { h.fix(6, 3); h.fix(6, 4) }
        2012 => { h.fix(6, 4); h.fix(6, 5) }
        2022 => { h.fix(6, 2); h.fix(6, 3) }
        _ => h.last(MON, 5),
    }
    h.last(MON, 8);
    h.on(2011, 4, 29);
    h.on(2022, 9, 19);
    h.on(2023, 5, 8);
    for d in [25, 26] {
        h.fix(12, d);
        // substitute two days later when on a weekend
        if matches!(wday(serial(y, 12, d)), SAT | SUN) {
            h.fix(12, d + 2);
        }
    }
    h.on(1999, 12, 31);
}

fn us_washington(h: &mut Y) {
    if h.y >= 1971 { h.nth(3, MON, 2) } else { h.observed(2, 22) }
}
fn us_memorial(h: &mut Y) {
    if h.y >= 1971 { h.last(MON, 5) } else { h.observed(5, 30) }
}
fn us_juneteenth(h: &mut Y) {
    if h.y >= 2022 { h.observed(6, 19) }
}
fn us_columbus(h: &mut Y) {
    if h.y >= 1971 { h.nth(2, MON, 10) }
}
fn us_veterans(h: &mut Y, saturday: bool) {
    if (1971..1978).contains(&h.y) {
        h.nth(4, MON, 10)
    } else if saturday {
        h.observed(11, 11)
    } else {
        h.sun_mon(11, 11)
    }
}
fn us_settlement(h: &mut Y, libor: bool) {
    h.sun_mon(1, 1);
    // next year's New Year's Day on a Saturday
    if wday(serial(h.y, 12, 31)) == FRI {
        h.fix(12, 31);
    }
    if h.y >= 1983 { h.nth(3, MON, 1) }
    us_washington(h);
    us_memorial(h);
    us_juneteenth(h);
    if libor && h.y >= 2015 { h.fix(7, 4) } else { h.observed(7, 4) }
    h.nth(1, MON, 9);
    us_columbus(h);
    us_veterans(h, true);
    h.nth(4, THU, 11);
    h.observed(12, 25);
}

/// floor of a + 0.242194 (y - 2000) - (leap days between 2000 and y), in integers
fn equinox(micro: i64, y: i32) -> u32 {
    // leap days after 29 Feb 2000 up to and including year y (negative before)
    let leaps = if y >= 2000 {
        (2001..=y).filter(|k| leap(*k)).count() as i64
    } else {
        -((y + 1..=2000).filter(|k| leap(*k)).count() as i64)
    };
    ((micro + 242_194 * (y as i64 - 2000) - 1_000_000 * leaps).div_euclid(1_000_000)) as u32
}

fn japan(h: &mut Y) {
    let y = h.y;
    h.fix(1, 1);
    h.fix(1, 2);
    h.fix(1, 3);
    if y >= 2000 { h.nth(2, MON, 1) } else { h.sun_mon(1, 15) }
    h.sun_mon(2, 11);
    if y >= 2020 { h.sun_mon(2, 23) }
    if (1989..=2018).contains(&y) { h.sun_mon(12, 23) }
    h.sun_mon(3, equinox(20_691_150, y));
    h.sun_mon(4, 29);
    h.fix(5, 3);
    h.fix(5, 4);
    h.fix(5, 5);
    if [3, 4, 5].iter().any(|d| wday(serial(y, 5, *d)) == SUN) || (wday(serial(y, 5, 6)) == MON || wday(serial(y, 5, 6)) == TUE || wday(serial(y, 5, 6)) == WED) {
        // May 6th stands in when one of the three fell on a weekend day
        if matches!(wday(serial(y, 5, 6)), MON | TUE | WED) {
            h.fix(5, 6);
        }
    }
    // Marine Day
    match y {
        2020 => h.fix(7, 23),
        2021 => h.fix(7, 22),
        y if y >= 2003 => h.nth(3, MON, 7),
        y if y >= 1996 => h.sun_mon(7, 20),
        _ => {}
    }
    // Mountain Day
    match y {
        2020 => h.fix(8, 10),
        2021 => h.fix(8, 9),
        y if y >= 2016 => h.sun_mon(8, 11),
        _ => {}
    }
    let ae = equinox(23_090_000, y);
    if y >= 2003 {
        h.nth(3, MON, 9);
        // a single day between Respect for the Aged Day and the equinox
        let resp = nth_wday(3, MON, y, 9);
        if resp + 2 == serial(y, 9, ae) {
            h.out.insert(resp + 1);
        }
    } else {
        h.sun_mon(9, 15);
    }
    h.sun_mon(9, ae);
    // Health and Sports Day
    match y {
        2020 => h.fix(7, 24),
        2021 => h.fix(7, 23),
        y if y >= 2000 => h.nth(2, MON, 10),
        _ => h.sun_mon(10, 10),
    }
    h.sun_mon(11, 3);
    h.sun_mon(11, 23);
    h.fix(12, 31);
    h.on(1959, 4, 10);
    h.on(1989, 2, 24);
    h.on(1990, 11, 12);
    h.on(1993, 6, 9);
    h.on(2019, 4, 30);
    h.on(2019, 5, 1);
    h.on(2019, 5, 2);
    h.on(2019, 10, 22);
}

fn brazil(h: &mut Y) {
    for (m, d) in [(1, 1), (4, 21), (5, 1), (9, 7), (10, 12), (11, 2), (11, 15), (12, 25)] {
        h.fix(m, d);
    }
    h.east(-2); // Passion of Christ
    h.east(-48); // Carnival Monday
    h.east(-47); // Carnival Tuesday
    h.east(60); // Corpus Christi
}

fn nyse(h: &mut Y) {
    let y = h.y;
    h.sun_mon(1, 1);
    if y >= 1998 { h.nth(3, MON, 1) }
    us_washington(h);
    h.east(-2);
    us_memorial(h);
    us_juneteenth(h);
    h.observed(7, 4);
    h.nth(1, MON, 9);
    h.nth(4, THU, 11);
    h.observed(12, 25);
    // presidential election days: the Tuesday of November 1-7
    if y <= 1968 || (y <= 1980 && y % 4 == 0) { h.nth(1, TUE, 11) }
    if y == 1968 {
        // closed on Wednesdays from June 12th
        let mut k = serial(y, 6, 12);
        while k <= y1(y) {
            h.out.insert(k);
            k += 7;
        }
        // day-of-year 163 is June 11th in a leap year: no Wednesday before the 12th qualifies
    }
    for (cy, m, d) in [
        (2018, 12, 5), (2012, 10, 29), (2012, 10, 30), (2007, 1, 2), (2004, 6, 11), (2001, 9, 11),
        (2001, 9, 12), (2001, 9, 13), (2001, 9, 14), (1994, 4, 27), (1985, 9, 27), (1977, 7, 14),
        (1973, 1, 25), (1972, 12, 28), (1969, 7, 21), (1969, 3, 31), (1969, 2, 10), (1968, 7, 5),
        (1968, 4, 9), (1963, 11, 25), (1961, 5, 29), (1958, 12, 26), (1954, 12, 24), (1956, 12, 24),
        (1965, 12, 24),
    ] {
        h.on(cy, m, d);
    }
}

fn generate(market: u8, y: i32) -> HashSet<i32> {
    let mut hh = Y { y, out: HashSet::new() };
    let h = &mut hh;
    match market {
        0 | 1 => {}
        2 => {
            h.fix(1, 1);
            h.fix(12, 25);
            if y >= 2000 {
                h.east(-2);
                h.east(1);
                h.fix(5, 1);
                h.fix(12, 26);
            }
            for k in [1998, 1999, 2001] {
                h.on(k, 12, 31);
            }
        }
        3 => {
            for (m, d) in [(1, 1), (1, 2), (5, 1), (8, 1), (12, 25), (12, 26)] {
                h.fix(m, d);
            }
            h.east(-2);
            h.east(1);
            h.east(39); // Ascension
            h.east(50); // Whit Monday
        }
        4 => brazil(h),
        5 => {
            brazil(h);
            h.fix(1, 25);
            h.fix(7, 9);
            h.fix_if(y >= 2007, 11, 20);
            h.fix(12, 24);
            // last business day of the year
            let mut k = y1(y);
            while matches!(wday(k), SAT | SUN) {
                k -= 1;
            }
            h.out.insert(k);
            h.fix(12, 31);
        }
        6 => {
            for (m, d) in [(1, 1), (1, 6), (4, 25), (5, 1), (8, 15), (11, 1), (12, 8), (12, 25), (12, 26)] {
                h.fix(m, d);
            }
            h.fix_if(y >= 2000, 6, 2);
            h.east(1);
            h.on(1999, 12, 31);
        }
        7 => {
            for (m, d) in [(1, 1), (5, 1), (8, 15), (12, 24), (12, 25), (12, 26), (12, 31)] {
                h.fix(m, d);
            }
            h.east(-2);
            h.east(1);
        }
        8 => japan(h),
        9 | 10 | 11 => uk(h),
        12 => us_settlement(h, false),
        13 => us_settlement(h, true),
        14 => nyse(h),
        15 => {
            h.sun_mon(1, 1);
            if y >= 1983 { h.nth(3, MON, 1) }
            us_washington(h);
            if y != 2015 { h.east(-2) }
            us_memorial(h);
            us_juneteenth(h);
            h.observed(7, 4);
            h.nth(1, MON, 9);
            us_columbus(h);
            us_veterans(h, false);
            h.nth(4, THU, 11);
            h.observed(12, 25);
            h.on(2018, 12, 5);
            h.on(2012, 10, 30);
            h.on(2004, 6, 11);
        }
        16 => {
            h.sun_mon(1, 1);
            us_memorial(h);
            h.sun_mon(7, 4);
            h.nth(1, MON, 9);
            h.nth(4, THU, 11);
            h.sun_mon(12, 25);
        }
        _ => {
            h.sun_mon(1, 1);
            if y >= 1983 { h.nth(3, MON, 1) }
            us_washington(h);
            us_memorial(h);
            us_juneteenth(h);
            h.sun_mon(7, 4);
            h.nth(1, MON, 9);
            us_columbus(h);
            us_veterans(h, false);
            h.nth(4, THU, 11);
            h.sun_mon(12, 25);
        }
    }
    hh.out
}

thread_local! {
    static CACHE: RefCell<HashMap<(u8, i32), Rc<HashSet<i32>>>> = RefCell::new(HashMap::new());
}

pub fn is_weekend(market: u8, s: i32) -> bool {
    market != 0 && matches!(wday(s), SAT | SUN)
}

/// business day of the market, before any user overrides
pub fn is_business(market: u8, s: i32) -> bool {
    if market == 0 {
        return true;
    }
    if is_weekend(market, s) {
        return false;
    }
    let (y, _, _) = ymd(s);
    let set = CACHE.with(|c| c.borrow_mut().entry((market, y)).or_insert_with(|| Rc::new(generate(market, y))).clone());
    !set.contains(&s)
}

/// the well-known almanac formula for the Japanese equinox days (1900-2150)
pub fn almanac_equinox(y: i32, spring: bool) -> u32 {
    let (a, b) = match y {
        1900..=1979 => (if spring { 20.8357 } else { 23.2588 }, 1983),
        1980..=2099 => (if spring { 20.8431 } else { 23.2488 }, 1980),
        _ => (if spring { 21.8510 } else { 24.2488 }, 1980),
    };
    // the almanac truncates (y - 1983) / 4 towards zero for years before 1980
    let q = if y < 1980 { (y - b) / 4 } else { (y - b).div_euclid(4) };
    (a + 0.242194 * (y - 1980) as f64 - q as f64).floor() as u32
}
pub fn model_equinox(y: i32, spring: bool) -> u32 {
    equinox(if spring { 20_691_150 } else { 23_090_000 }, y)
}
