//! E01, X01, Y07, S07, B05: numbers of enumerations, printed forms, equality of day counters, the
//! schedule builder and the bond functions.
use crate::civil::*;
use crate::engine::*;
use crate::p_cal::CONV;
use crate::p_dc::{arb_coupons, arb_two, close};
use crate::p_flows::{arb_disc, arb_leg, arb_when, disc_rate, ldc, pv, when, Book, Disc, LegSpec, When, NLDC};
use crate::p_rates::{comp, FREQS};
use crate::p_sched::{arb_bf, arb_imm, odate, SchedSpec, RULES};
use proptest::collection::vec;
use proptest::prelude::*;
use rust_quantlib::cashflows::cashflow;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::frequency::Frequency;
use rust_quantlib::datetime::imm::IMMMonth;
use rust_quantlib::datetime::months::{self, Month};
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit::{self, *};
use rust_quantlib::datetime::weekday::Weekday;
use rust_quantlib::datetime::weekend::{NilWeekend, OrthodoxWeekend, Weekend, WesternWeekend};
use rust_quantlib::datetime::{time_to_days, time_to_days_with_days_per_year};
use rust_quantlib::instruments::fixedratebond::FixedRateBond;
use rust_quantlib::instruments::zerocouponbond::ZeroCouponBond;
use rust_quantlib::pricingengines::bond::bondfunctions;

const UNITS: [TimeUnit; 9] = [Days, Weeks, Months, Years, Hours, Minutes, Seconds, Milliseconds, Microseconds];
fn arb_any() -> impl Strategy<Value = SchedSpec> + Clone {
    prop_oneof![arb_bf(), arb_coupons(), arb_imm()]
}
const MONTHS: [(Month, Month, IMMMonth, &str); 12] = [
    (Month::January, months::Jan, IMMMonth::F, "January"),
    (Month::February, months::Feb, IMMMonth::G, "February"),
    (Month::March, months::Mar, IMMMonth::H, "March"),
    (Month::April, months::Apr, IMMMonth::J, "April"),
    (Month::May, Month::May, IMMMonth::K, "May"),
    (Month::June, months::Jun, IMMMonth::M, "June"),
    (Month::July, months::Jul, IMMMonth::N, "July"),
    (Month::August, months::Aug, IMMMonth::Q, "August"),
    (Month::September, months::Sep, IMMMonth::U, "September"),
    (Month::October, months::Oct, IMMMonth::V, "October"),
    (Month::November, months::Nov, IMMMonth::X, "November"),
    (Month::December, months::Dec, IMMMonth::Z, "December"),
];
const DAYS: [(Weekday, &str); 7] = [
    (Weekday::Sunday, "Sunday"),
    (Weekday::Monday, "Monday"),
    (Weekday::Tuesday, "Tuesday"),
    (Weekday::Wednesday, "Wednesday"),
    (Weekday::Thursday, "Thursday"),
    (Weekday::Friday, "Friday"),
    (Weekday::Saturday, "Saturday"),
];

fn imm_number(m: &IMMMonth) -> i32 {
    match m {
        IMMMonth::F => IMMMonth::F as i32,
        IMMMonth::G => IMMMonth::G as i32,
        IMMMonth::H => IMMMonth::H as i32,
        IMMMonth::J => IMMMonth::J as i32,
        IMMMonth::K => IMMMonth::K as i32,
        IMMMonth::M => IMMMonth::M as i32,
        IMMMonth::N => IMMMonth::N as i32,
        IMMMonth::Q => IMMMonth::Q as i32,
        IMMMonth::U => IMMMonth::U as i32,
        IMMMonth::V => IMMMonth::V as i32,
        IMMMonth::X => IMMMonth::X as i32,
        IMMMonth::Z => IMMMonth::Z as i32,
    }
}

/// a frequency is the number of its periods in a year
const YEARLY: [(Frequency, i32); 13] = [
    (Frequency::NoFrequency, -1),
    (Frequency::Once, 0),
    (Frequency::Annual, 1),
    (Frequency::Semiannual, 2),
    (Frequency::EveryFourthMonth, 3),
    (Frequency::Quarterly, 4),
    (Frequency::Bimonthly, 6),
    (Frequency::Monthly, 12),
    (Frequency::EveryFourthWeek, 13),
    (Frequency::Biweekly, 26),
    (Frequency::Weekly, 52),
    (Frequency::Daily, 365),
    (Frequency::OtherFrequency, 999),
];

fn number(n: i32) -> Res {
    for (f, i) in YEARLY {
        ensure!(f as i32 == i && i32::from(f) == i && f64::from(f) == f64::from(i), "{f:?} has another number than {i}");
        if i == n && n > 0 {
            ensure_eq!(quiet(|| Frequency::from(n)), Ok(f), "frequency numbered {n}");
        }
    }

    let got = quiet(|| Month::from(n));
    ensure_eq!(got.is_ok(), (1..=12).contains(&n), "{n} is the number of a month");
    if let Ok(m) = got {
        let (full, short, imm, name) = &MONTHS[n as usize - 1];
        ensure!(m == *full && m == *short && format!("{m:?}") == *name, "month {n} is {m:?}, expected {name}");
        ensure!(i32::from(m) == n && u32::from(m) == n as u32 && usize::from(m) == n as usize, "{m:?} has another number than {n}");
        ensure_eq!(imm_number(imm), n, "number of the IMM month of {name}");
    }
    if n >= 0 {
        ensure_eq!(quiet(|| Month::from(n as u32)).ok(), quiet(|| Month::from(n)).ok(), "month from unsigned {n}");
    }
    let got = quiet(|| Weekday::from(n));
    ensure_eq!(got.is_ok(), (0..=7).contains(&n), "{n} is the number of a weekday");
    if let Ok(w) = got {
        // Saturday answers to 0 as well as 7
        let i = if n == 0 { 7 } else { n };
        let (want, name) = DAYS[i as usize - 1];
        ensure!(w == want && format!("{w:?}") == name && i32::from(w) == i, "weekday {n} is {w:?}, expected {name}");
        let weekend = name == "Saturday" || name == "Sunday";
        for (e, want) in [
            (Weekend::WesternWeekend(WesternWeekend {}), weekend),
            (Weekend::OrthodoxWeekend(OrthodoxWeekend {}), weekend),
            (Weekend::NilWeekend(NilWeekend {}), false),
        ] {
            ensure_eq!(e.is_weekend(w), want, "{w:?} belongs to {e:?}");
        }
    }
    Ok(())
}

pub fn e01(s: &mut Session) {
    s.rule(
        "Every number from -400 to 400 is enumerated and others are generated; a case is non-trivial when it \
         is the number of a month or weekday, or a time with a year length. All names, short names, IMM \
         month letters and weekend rules are compared with the calendar's.",
    );
    s.exhaust("numbers", (-400..=400).collect::<Vec<i32>>(), |&n, cx| {
        cx.nontrivial_if((0..=12).contains(&n));
        number(n)
    });
    s.check("any_number", 4_000, 40_000, || (any::<i32>(), prop_oneof![Just(-100i32), Just(0), Just(100)], -200.0f64..200.0, prop_oneof![Just(360i32), Just(365), Just(252), 1i32..400]), |&(n, _, t, len), cx| {
        number(n)?;
        cx.nontrivial();
        // the whole number of days nearest to a time
        let d = call("time_to_days_with_days_per_year", || time_to_days_with_days_per_year(t, len))?;
        ensure!((f64::from(d) - t * f64::from(len)).abs() <= 0.5 + 1e-9, "{t} years of {len} days are {d} days");
        let d = call("time_to_days", || time_to_days(t))?;
        ensure!((f64::from(d) - t * 360.0).abs() <= 0.5 + 1e-9, "{t} years of 360 days are {d} days");
        for k in [n % 3000, n % 40] {
            let t = f64::from(k) / f64::from(len);
            ensure_eq!(time_to_days_with_days_per_year(t, len), k, "days of {t} years of {len} days");
        }
        Ok(())
    });
    s.exhaust("today", vec![0u8], |_, cx| {
        // any time zone's today is within a day of the universal one
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs());
        let utc = serial(1970, 1, 1) + (now / 86_400) as i32;
        cx.nontrivial();
        let today = call("todays_date", Date::todays_date)?;
        ensure!((ser(&today) - utc).abs() <= 1, "today is {today:?}, the clock says {}", show(utc));
        let c = call("PricingContext::default", PricingContext::default)?;
        ensure!((ser(&c.eval_date) - utc).abs() <= 1, "the default evaluation date is {:?}, the clock says {}", c.eval_date, show(utc));
        let d = date(utc - 1000);
        ensure_eq!(PricingContext::new(d).eval_date, d, "evaluation date");
        Ok(())
    });
}

/// the ISO dates in a text, in order
fn iso(t: &str) -> Vec<String> {
    let b = t.as_bytes();
    let is = |w: &[u8]| w.iter().enumerate().all(|(i, c)| if i == 4 || i == 7 { *c == b'-' } else { c.is_ascii_digit() });
    let mut out = vec![];
    let mut i = 0;
    while i + 10 <= b.len() {
        if is(&b[i..i + 10]) {
            out.push(t[i..i + 10].to_string());
            i += 10;
        } else {
            i += 1;
        }
    }
    out
}

pub fn x01(s: &mut Session) {
    s.rule(
        "A case is a period of any unit, a day, or a schedule with the bonds issued on it; all are \
         non-trivial. What is printed must hold the value's own dates, in order, and nothing else of that \
         kind; a period reads as its length and the unit's letter.",
    );
    s.check("period", 6_000, 100_000, || (prop_oneof![Just(0i32), -40i32..40, any::<i32>()], 0u8..9), |&(n, u), cx| {
        cx.nontrivial();
        let t = format!("{:?}", Period::new(n, UNITS[u as usize]));
        let want = format!("{n}{}", ["D", "W", "M", "Y", "H", "m", "s", "ms", "us"][u as usize]);
        ensure_eq!(t, want, "printed form of {n} {:?}", UNITS[u as usize]);
        Ok(())
    });
    s.check("date", 6_000, 100_000, || arb_date(y0(1900), y1(2199)), |&k: &i32, cx| {
        cx.nontrivial();
        let t = format!("{:?}", date(k));
        ensure_eq!(iso(&t), vec![show(k)], "printed form of {} is {t}", show(k));
        Ok(())
    });
    s.check("schedule", 3_000, 50_000, || (arb_any(), 0i32..4), |(sp, settle): &(SchedSpec, i32), cx| {
        let Ok(sc) = quiet(|| sp.build()) else { return Ok(()) };
        let dates: Vec<i32> = sc.dates().iter().map(ser).collect();
        cx.nontrivial_if(dates.len() > 2);
        let t = call("printing a schedule", || format!("{sc:?}"))?;
        ensure_eq!(iso(&t), dates.iter().map(|k| show(*k)).collect::<Vec<_>>(), "dates printed for a schedule");
        if dates.windows(2).any(|w| w[0] >= w[1]) {
            return Ok(());
        }
        if let Ok(b) = quiet(|| FixedRateBond::new(*settle, 100.0, sc.clone(), vec![0.05], ldc(0, 0))) {
            let t = format!("{b:?}");
            ensure!(t.starts_with("FRB"), "a fixed rate bond prints as {t}");
            // printed with its maturity
            let end = sc.end_date();
            ensure_eq!(iso(&t), vec![show(ser(end))], "date printed for a bond maturing {end:?}");
        }
        let end = dates[dates.len() - 1];
        let z = ZeroCouponBond::new(*settle, &sp.cal.build().0, 100.0, date(end));
        let t = format!("{z:?}");
        ensure!(t.starts_with("ZCB"), "a zero coupon bond prints as {t}");
        ensure_eq!(iso(&t), vec![show(end)], "date printed for a zero coupon bond maturing {}", show(end));
        Ok(())
    });
}

/// day counters with one definition
fn class(k: u8) -> u8 {
    match k {
        6 => 5,
        8 => 7,
        11 => 10,
        k => k,
    }
}

pub fn y07(s: &mut Session) {
    s.rule(
        "A case is two of the 19 day counters that need no schedule (enumerated in pairs) and two dates; \
         non-trivial when the counters are the same one or two names for the same one. Equality is compared \
         with the list of definitions, and equal counters must answer alike.",
    );
    s.assume("30/360 ISDA counters with different termination dates are not compared: the library holds them equal.");
    let one = |&(k, l, (a, b), term): &(u8, u8, (i32, i32), i32), cx: &Cx| -> Res {
        let (x, y) = (ldc(k, term), ldc(l, term));
        let same = class(k) == class(l);
        cx.nontrivial_if(same);
        ensure!(x == x.clone() && y.clone() == y, "{} is not equal to its copy", x.name());
        ensure!((x == y) == same && (y == x) == same && (x != y) == !same, "{} and {} compare {}", x.name(), y.name(), if same { "unequal" } else { "equal" });
        ensure_eq!(x.name() == y.name(), same, "names {} and {} are the same", x.name(), y.name());
        ensure_eq!(format!("{x:?}"), x.name(), "printed form of a day counter");
        ensure!(!x.name().is_empty(), "a day counter has no name");
        if x == y || same {
            let (d1, d2) = (date(a.min(b)), date(a.max(b)));
            let none = Date::default();
            for (d1, d2) in [(d1, d2), (d2, d1)] {
                let f = |c: &rust_quantlib::datetime::daycounter::DayCounter| quiet(|| (c.day_count(&d1, &d2), c.year_fraction(&d1, &d2, &none, &none))).ok();
                ensure_eq!(f(&x), f(&y), "equal day counters {} from {d1:?} to {d2:?}", x.name());
                ensure_eq!(f(&x), f(&x.clone()), "a copy of {} from {d1:?} to {d2:?}", x.name());
            }
        }
        Ok(())
    };
    let all: Vec<_> = (0..NLDC).flat_map(|k| (0..NLDC).map(move |l| (k, l, (40_000, 40_400), 45_000))).collect();
    s.exhaust("pairs", all, one);
    s.check("dates", 4_000, 80_000, || (0..NLDC, prop_oneof![1 => Just(100u8), 1 => 0..NLDC], arb_two(), 40_000i32..80_000).prop_map(|(k, l, ab, t)| (k, if l == 100 { k } else { l }, ab, t)), one);
}

// ---------------------------------------------------------------------------------------- S07

pub fn s07(s: &mut Session) {
    s.rule(
        "A case is a schedule specification and a history of up to eight settings of a builder's options in \
         any order, with any values; non-trivial when an option is set twice or left unset. The schedule \
         built must be the one constructed directly from the last value of each option, and the defaults for \
         the rest.",
    );
    type Set = (u8, u8, i32);
    s.check("history", 6_000, 150_000, || (prop_oneof![arb_bf(), arb_coupons(), arb_any()], vec((0u8..9, 0u8..40, 0i32..400), 0..9), any::<bool>()), |(sp, sets, base): &(SchedSpec, Vec<Set>, bool), cx| {
        // what nothing was said about: following, the same at the end, backward, no month ends
        let mut want = SchedSpec { conv: 0, tconv: 0, rule: 0, eom: false, first: 0, ntl: 0, ..sp.clone() };
        let mut tconv = None;
        let mut b = sp.builder();
        let mut done = [0u32; 6];
        let own: [Set; 6] = [(0, sp.conv, 0), (1, sp.tconv, 0), (2, sp.rule, 0), (5, u8::from(sp.eom), 0), (6, 0, -1), (7, 0, -1)];
        let steps = sets.iter().copied().chain(own.into_iter().filter(|_| *base).take(if sp.first == 0 && sp.ntl == 0 { 4 } else { 6 }));
        for (i, (what, k, off)) in steps.enumerate() {
            // earlier dates are near the ends; the case's own come last
            let last = i >= sets.len();
            b = match what {
                0 => { want.conv = k % 7; b.with_convention(CONV[want.conv as usize]) }
                1 => { tconv = Some(k % 7); b.with_termination_convention(CONV[(k % 7) as usize]) }
                2 => { want.rule = k % 10; b.with_rule(RULES[want.rule as usize]) }
                3 => { want.rule = 1; b.forwards() }
                4 => { want.rule = 0; b.backwards() }
                5 => { want.eom = k % 2 == 1; b.with_end_of_month(want.eom) }
                6 => {
                    want.first = if last { sp.first } else if off % 3 == 0 || sp.eff == 0 { 0 } else { sp.eff + off };
                    b.with_first_date(odate(want.first))
                }
                7 => {
                    want.ntl = if last { sp.ntl } else if off % 3 == 0 { 0 } else { sp.term - off };
                    b.with_next_to_last_date(odate(want.ntl))
                }
                _ => b,
            };
            done[match what { 0 => 0, 1 => 1, 2 | 3 | 4 => 2, 5 => 3, 6 => 4, 7 => 5, _ => continue }] += 1;
        }
        want.tconv = tconv.unwrap_or(want.conv);
        cx.nontrivial_if(done.iter().any(|n| *n != 1));
        cx.label_if(done[0] == 0, "default convention");
        cx.label_if(done[1] == 0, "default termination convention");
        cx.label_if(done[2] == 0, "default rule");
        cx.label_if(done[2] > 1, "rule set twice");
        let got = quiet(|| b.build());
        let direct = quiet(|| want.build());
        ensure_eq!(got.is_ok(), direct.is_ok(), "the builder accepts what the constructor accepts ({:?})", direct.as_ref().err());
        let (Ok(g), Ok(d)) = (got, direct) else {
            cx.label("refused");
            return Ok(());
        };
        ensure_eq!(g.dates(), d.dates(), "dates built");
        ensure_eq!(
            (1..g.dates().len()).map(|i| quiet(|| g.is_regular(i)).ok()).collect::<Vec<_>>(),
            (1..d.dates().len()).map(|i| quiet(|| d.is_regular(i)).ok()).collect::<Vec<_>>(),
            "regular periods built"
        );
        ensure!(
            g.tenor() == d.tenor() && g.business_day_convention() == d.business_day_convention() && g.calendar().name() == d.calendar().name(),
            "tenor, convention or calendar of the schedule built"
        );
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- B05

pub fn b05(s: &mut Session) {
    s.rule(
        "A case is a leg with a redemption, a discounting rate, a settlement date and a notional; non-trivial \
         with two or more flows left. Each bond function is compared with the cash flow function it is for, \
         per hundred of notional, and with the reference present value and accrual.",
    );
    s.check(
        "functions",
        4_000,
        100_000,
        || (arb_leg(), 0.0f64..20_000.0, arb_disc(), arb_when(), prop_oneof![Just(100.0f64), 0.5f64..20_000.0], (0.001f64..0.25, 0.02f64..0.15)),
        |(leg, redemption, disc, w, notional, (y, guess)): &(LegSpec, f64, Disc, When, f64, (f64, f64)), cx| {
            let book = Book { leg: leg.clone(), redemption: *redemption, extra: vec![] };
            let Some((flows, m)) = book.make() else { return Ok(()) };
            let term = leg.term();
            let settle = when(&m, w);
            let d = date(settle);
            let (own, all) = (call("building the leg", || leg.build())?, call("building the leg", || book.build(&m))?);
            let what = || format!("{} flows at {}, notional {notional}", flows.len(), show(settle));
            ensure_eq!(bondfunctions::maturity_date(&own), cashflow::maturity_date(&own), "{}: maturity", what());
            ensure_eq!(bondfunctions::maturity_date(&all), cashflow::maturity_date(&all), "{}: maturity with a redemption", what());
            let red = all.iter().filter(|f| f.accrual_end_date() == Date::default()).cloned().collect::<Vec<_>>();
            ensure_eq!(bondfunctions::maturity_date(&red), red[0].date(), "{}: maturity of the redemption alone", what());
            // by the cash flow functions, without the flows of the day itself
            let per = |x: f64| x * 100.0 / notional;
            let days = quiet(|| cashflow::accrued_days(&own, false, d)).ok();
            ensure_eq!(quiet(|| bondfunctions::accrued_days(&own, d)).ok(), days, "{}: accrued days", what());
            let both = |a: Result<f64, String>, b: Result<f64, String>, name: &str| match (a, b) {
                (Ok(a), Ok(b)) => {
                    ensure!(close(a, b, 1e-12), "{}: {name} {a}, expected {b}", what());
                    Ok(())
                }
                (Err(_), Err(_)) => Ok(()),
                (a, b) => Err(format!("{}: {name} {a:?}, expected {b:?}", what())),
            };
            both(quiet(|| bondfunctions::accrued_period(&own, d)), quiet(|| cashflow::accrued_period(&own, false, d)), "accrued period")?;
            both(quiet(|| bondfunctions::accrued_amount(&own, *notional, d)), quiet(|| per(cashflow::accrued_amount(&own, false, d))), "accrued amount")?;
            both(quiet(|| bondfunctions::accrued_amount(&all, *notional, d)), quiet(|| per(cashflow::accrued_amount(&all, false, d))), "accrued amount with a redemption")?;
            let rate = disc_rate(disc, term);
            both(quiet(|| bondfunctions::dirty_price(*notional, &all, &rate, d)), quiet(|| per(cashflow::npv(&all, &rate, false, d, Date::default()))), "dirty price")?;
            // by the reference
            let Some(p) = pv(&flows, disc, term, false, settle, settle) else { return Ok(()) };
            cx.nontrivial_if(p.steps.len() > 1);
            if p.mint >= 1e-9 {
                let g = call(&what(), || bondfunctions::dirty_price(*notional, &all, &rate, d))?;
                ensure!((g - per(p.npv)).abs() <= per(1e-9 * (p.size + 1.0)), "{}: dirty price {g}, expected {}", what(), per(p.npv));
            }
            // and back to the yield, for positive flows
            let disc = ((*y, disc.0 .1, disc.0 .2), disc.1);
            let Some(p) = pv(&flows, &disc, term, false, settle, settle) else { return Ok(()) };
            let total: f64 = p.steps.iter().map(|s| s.1).sum();
            if !matches!(disc.0 .1, 1 | 2) || p.npv < 1.0 || total < 0.02 || p.mint < 1e-9 || p.steps.iter().any(|s| s.0 < 0.0) {
                return Ok(());
            }
            cx.label("yield");
            let got = call(&what(), || bondfunctions::bond_yield(&all, p.npv, ldc(disc.1, term), comp(disc.0 .1), FREQS[disc.0 .2].0, d, 1e-8, 100, *guess))?;
            ensure!((got - y).abs() <= 2e-8 + 1e-11 / total.min(1.0), "{}: yield {got} found for the price of a yield of {y}", what());
            Ok(())
        },
    );
}
