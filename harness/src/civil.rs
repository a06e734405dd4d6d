//! Reference civil calendar (proleptic Gregorian), written independently of the code under test:
//! everything is derived from the 400-year day count, no tables.
use proptest::prelude::*;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::months::Month;
use rust_quantlib::datetime::weekday::Weekday;

pub const MIN: i32 = 2; // 1900-01-01
pub const MAX: i32 = 109574; // 2199-12-31

/// days since 1970-01-01 (Hinnant's algorithm)
fn days_from_civil(y: i32, m: u32, d: u32) -> i64 {
    let y = if m <= 2 { y - 1 } else { y } as i64;
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let mp = (m as i64 + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

/// serial number of a civil date (1970-01-01 is 25569)
pub fn serial(y: i32, m: u32, d: u32) -> i32 {
    (days_from_civil(y, m, d) + 25569) as i32
}

pub fn ymd(serial: i32) -> (i32, u32, u32) {
    let z = serial as i64 - 25569 + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    let y = yoe + era * 400 + i64::from(m <= 2);
    (y as i32, m, d)
}

pub fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

pub fn mlen(y: i32, m: u32) -> u32 {
    match m {
        2 => 28 + u32::from(leap(y)),
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

pub fn yday(s: i32) -> u32 {
    let (y, _, _) = ymd(s);
    (s - serial(y, 1, 1) + 1) as u32
}

/// 1 = Sunday .. 7 = Saturday; 1970-01-01 was a Thursday (5)
pub fn wday(s: i32) -> u32 {
    ((s as i64 - 25569 + 4).rem_euclid(7) + 1) as u32
}

pub fn eom(s: i32) -> i32 {
    let (y, m, _) = ymd(s);
    serial(y, m, mlen(y, m))
}
pub fn is_eom(s: i32) -> bool {
    eom(s) == s
}

/// month arithmetic with the end-of-month clamp
pub fn add_months(s: i32, n: i32) -> i32 {
    let (y, m, d) = ymd(s);
    let t = y * 12 + m as i32 - 1 + n;
    let (ny, nm) = (t.div_euclid(12), t.rem_euclid(12) as u32 + 1);
    serial(ny, nm, d.min(mlen(ny, nm)))
}

/// 0 days, 1 weeks, 2 months, 3 years
pub fn add_unit(s: i32, n: i32, unit: u8) -> i32 {
    match unit {
        0 => s + n,
        1 => s + 7 * n,
        2 => add_months(s, n),
        _ => add_months(s, 12 * n),
    }
}

/// n-th weekday (1 = Sunday) of a month; may run into the next month for n = 5
pub fn nth_wday(n: u32, w: u32, y: i32, m: u32) -> i32 {
    let first = serial(y, m, 1);
    let off = (w + 7 - wday(first)) % 7;
    first + off as i32 + 7 * (n as i32 - 1)
}

/// Gregorian Easter Sunday (anonymous / Meeus computus), as a serial number
pub fn easter(y: i32) -> i32 {
    let a = y % 19;
    let b = y / 100;
    let c = y % 100;
    let d = b / 4;
    let e = b % 4;
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let i = c / 4;
    let k = c % 4;
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let month = (h + l - 7 * m + 114) / 31;
    let day = (h + l - 7 * m + 114) % 31 + 1;
    serial(y, month as u32, day as u32)
}

/// Julian computus, converted to the Gregorian calendar
pub fn easter_orthodox(y: i32) -> i32 {
    let a = y % 4;
    let b = y % 7;
    let c = y % 19;
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let month = (d + e + 114) / 31;
    let day = (d + e + 114) % 31 + 1;
    // Julian -> Gregorian: difference grows by one in centuries not divisible by 400
    let diff = y / 100 - y / 400 - 2;
    serial(y, month as u32, day as u32) + diff
}

// ------------------------------------------------------------------------------------------------
// bridges to the library

pub const MONTHS: [Month; 12] = [
    Month::January, Month::February, Month::March, Month::April, Month::May, Month::June,
    Month::July, Month::August, Month::September, Month::October, Month::November, Month::December,
];
pub const WEEKDAYS: [Weekday; 7] = [
    Weekday::Sunday, Weekday::Monday, Weekday::Tuesday, Weekday::Wednesday, Weekday::Thursday,
    Weekday::Friday, Weekday::Saturday,
];

/// the library's date for a serial number, built through its civil constructor
pub fn date(s: i32) -> Date {
    let (y, m, d) = ymd(s);
    Date::new(d, MONTHS[m as usize - 1], y)
}
pub fn ser(d: &Date) -> i32 {
    d.serial_number()
}
pub fn show(s: i32) -> String {
    let (y, m, d) = ymd(s);
    format!("{y:04}-{m:02}-{d:02}")
}
pub fn shows(v: &[i32]) -> String {
    format!("[{}]", v.iter().map(|s| show(*s)).collect::<Vec<_>>().join(", "))
}

/// a date between two serials, biased to month ends, leap days and year ends
pub fn arb_date(lo: i32, hi: i32) -> impl Strategy<Value = i32> + Clone {
    let (y0, _, _) = ymd(lo);
    let (y1, _, _) = ymd(hi);
    let clampd = move |s: i32| s.clamp(lo, hi);
    prop_oneof![
        5 => lo..=hi,
        2 => (y0..=y1, 1u32..=12).prop_map(move |(y, m)| clampd(serial(y, m, mlen(y, m)))),
        1 => (y0..=y1, 1u32..=12, 27u32..=31).prop_map(move |(y, m, d)| clampd(serial(y, m, d.min(mlen(y, m))))),
        1 => (y0..=y1).prop_map(move |y| clampd(serial(y, 2, 28 + u32::from(leap(y))))),
        1 => (y0..=y1, 0i32..6).prop_map(move |(y, k)| clampd(serial(y, 12, 29) + k)),
    ]
}
/// serial of the first / last day of a year
pub fn y0(y: i32) -> i32 {
    serial(y, 1, 1)
}
pub fn y1(y: i32) -> i32 {
    serial(y, 12, 31)
}
