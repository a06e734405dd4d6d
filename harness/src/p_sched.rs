use proptest::prelude::*;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention::{self, *};
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule::{self, *};
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::schedule::{previous_twentieth, Schedule};
use rust_quantlib::datetime::schedulebuilder::ScheduleBuilder;
use rust_quantlib::instruments::creditdefaultswap::cds_maturity;
use serde::{Deserialize, Serialize};

use crate::civil::*;
use crate::engine::*;
use crate::holidays_ref as href;
use crate::p_cal::{arb_cal, CalModel, CalSpec, CONV};
use crate::p_dates::UNITS;

pub const RULES: [DateGenerationRule; 10] = [
    Backward, Forward, Zero, ThirdWednesday, ThirdWednesdayInclusive, Twentieth, TwentiethIMM, OldCDS, CDS, CDS2015,
];

/// Arguments of a schedule; dates are serial numbers, 0 means "not given"
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SchedSpec {
    pub cal: CalSpec,
    pub eval: i32,
    pub eff: i32,
    pub term: i32,
    pub n: i32,
    pub unit: u8,
    pub conv: u8,
    pub tconv: u8,
    pub rule: u8,
    pub eom: bool,
    pub first: i32,
    pub ntl: i32,
}

pub fn odate(s: i32) -> Date {
    if s == 0 { Date::default() } else { date(s) }
}

impl SchedSpec {
    pub fn rule(&self) -> DateGenerationRule {
        RULES[self.rule as usize]
    }
    pub fn conv(&self) -> BusinessDayConvention {
        CONV[self.conv as usize]
    }
    pub fn tconv(&self) -> BusinessDayConvention {
        CONV[self.tconv as usize]
    }
    pub fn build(&self) -> Schedule {
        Schedule::new(
            PricingContext::new(odate(self.eval)), odate(self.eff), odate(self.term), Period::new(self.n, UNITS[self.unit as usize]),
            self.cal.build().0, self.conv(), self.tconv(), self.rule(), self.eom, odate(self.first), odate(self.ntl),
        )
    }
    pub fn builder(&self) -> ScheduleBuilder {
        ScheduleBuilder::new(
            PricingContext::new(odate(self.eval)), odate(self.eff), odate(self.term), Period::new(self.n, UNITS[self.unit as usize]),
            self.cal.build().0,
        )
    }
    /// k tenors after s, staying on the last day of the month when asked to
    pub fn roll(&self, s: i32, k: i32) -> i32 {
        let t = add_unit(s, k * self.n, self.unit);
        if self.eom_allowed() && is_eom(s) { eom(t) } else { t }
    }
    fn eom_allowed(&self) -> bool {
        self.eom && self.unit >= 2 && self.n >= 1
    }
}

/// the twentieth of a month (of March, June, September or December when `imm`) on or before s
fn prev20(s: i32, imm: bool) -> i32 {
    (0..).map(|i| s - i).find(|k| { let (_, m, d) = ymd(*k); d == 20 && (!imm || m % 3 == 0) }).unwrap()
}
fn next20(s: i32, imm: bool) -> i32 {
    (s..).find(|k| { let (_, m, d) = ymd(*k); d == 20 && (!imm || m % 3 == 0) }).unwrap()
}
fn wed3(s: i32) -> i32 {
    let (y, m, _) = ymd(s);
    nth_wday(3, 4, y, m)
}

/// The schedule those arguments describe (dates and one regularity flag per period), or None when
/// they must be rejected.
pub fn model(sp: &SchedSpec) -> Option<(Vec<i32>, Vec<bool>)> {
    let cal: CalModel = sp.cal.build().1;
    let (conv, tconv) = (sp.conv(), sp.tconv());
    let adj = |s: i32| cal.adjust(s, conv);
    if sp.term == 0 {
        return None;
    }
    let mut eff = sp.eff;
    if eff == 0 {
        if sp.first != 0 || sp.rule() != Backward || sp.eval >= sp.term {
            return None;
        }
        let base = if sp.ntl != 0 { sp.ntl } else { sp.term };
        eff = add_months(base, -12 * ((base - sp.eval) / 366 + 1));
    }
    if eff >= sp.term || sp.n < 0 {
        return None;
    }
    let rule = if sp.n == 0 { Zero } else { sp.rule() };
    let first = if sp.first == eff { 0 } else { sp.first };
    let ntl = if sp.ntl == sp.term { 0 } else { sp.ntl };
    for (x, lo, hi) in [(first, eff + 1, sp.term), (ntl, eff, sp.term - 1)] {
        if x != 0 {
            match rule {
                Backward | Forward => if x < lo || x > hi { return None },
                ThirdWednesday => if wed3(x) != x { return None },
                _ => return None,
            }
        }
    }
    if sp.eom_allowed() && !matches!(rule, Zero | Backward | Forward) {
        return None;
    }

    // unadjusted dates
    let mut seed = 0;
    let mut d: Vec<i32>;
    let mut reg: Vec<bool>;
    match rule {
        Zero => {
            d = vec![eff, sp.term];
            reg = vec![true];
        }
        Backward => {
            // built from the end, reversed below
            d = vec![sp.term];
            reg = vec![];
            seed = sp.term;
            if ntl != 0 {
                d.push(ntl);
                reg.push(sp.roll(sp.term, -1) == ntl);
                seed = ntl;
            }
            let stop = if first != 0 { first } else { eff };
            let rolls: Vec<i32> = (1..).map(|k| sp.roll(seed, -k)).take_while(|t| *t >= stop).collect();
            let tail = [(first, false), (eff, false)];
            for (t, r) in rolls.iter().map(|t| (*t, true)).chain(tail) {
                if t != 0 && adj(t) != adj(d[d.len() - 1]) {
                    d.push(t);
                    reg.push(r);
                }
            }
            d.reverse();
            reg.reverse();
        }
        _ => {
            let imm = rule != Twentieth;
            let twenty = matches!(rule, Twentieth | TwentiethIMM | OldCDS | CDS | CDS2015);
            let cds = matches!(rule, CDS | CDS2015);
            d = vec![eff];
            reg = vec![];
            if cds {
                let p = prev20(eff, true);
                d = vec![p];
                if adj(p) > eff {
                    d.insert(0, add_months(p, -3));
                    reg.push(true);
                }
            }
            seed = d[d.len() - 1];
            if first != 0 {
                d.push(first);
                reg.push(sp.roll(seed, 1) == first);
                seed = first;
            } else if twenty {
                let mut nx = next20(eff, imm);
                if rule == OldCDS && nx - eff < 30 {
                    nx = next20(nx + 1, imm);
                }
                if nx != eff {
                    d.push(nx);
                    reg.push(cds);
                    seed = nx;
                }
            }
            let stop = if ntl != 0 { ntl } else { sp.term };
            let rolls: Vec<i32> = (1..).map(|k| sp.roll(seed, k)).take_while(|t| *t <= stop).collect();
            for (t, r) in rolls.iter().map(|t| (*t, true)).chain([(ntl, false)]) {
                if t != 0 && adj(t) != adj(d[d.len() - 1]) {
                    d.push(t);
                    reg.push(r);
                }
            }
            if cal.adjust(d[d.len() - 1], tconv) != cal.adjust(sp.term, tconv) {
                d.push(if twenty { next20(sp.term, imm) } else { sp.term });
                reg.push(twenty);
            }
        }
    }

    // adjustments
    let last = d.len() - 1;
    for i in 0..=last {
        if rule == ThirdWednesdayInclusive || (rule == ThirdWednesday && i > 0 && i < last) {
            d[i] = wed3(d[i]);
        }
    }
    if sp.eom_allowed() && seed != 0 && cal.is_month_end(seed) {
        for i in 1..last {
            d[i] = if conv == Unadjusted { eom(d[i]) } else { cal.month_end(d[i]) };
        }
        let (a, b) = if tconv != Unadjusted {
            (cal.month_end(d[0]), cal.month_end(d[last]))
        } else if rule == Backward {
            (d[0], eom(d[last]))
        } else {
            (eom(d[0]), d[last])
        };
        if a != b {
            d[0] = a;
            d[last] = b;
        }
    } else {
        for i in 0..last {
            if i > 0 || rule != OldCDS {
                d[i] = adj(d[i]);
            }
        }
        if !matches!(rule, CDS | CDS2015) {
            d[last] = cal.adjust(d[last], tconv);
        }
    }
    // explicit dates moved to the month end of a neighbour are left out
    let mut i = 1;
    while sp.eom_allowed() && i + 2 < d.len() {
        if d[i] == d[i + 1] {
            d.remove(i);
            reg.remove(i);
        } else {
            i += 1;
        }
    }
    // dates pushed past a neighbour by the adjustment give way to the end date, then to the start
    while d.len() >= 2 && d[d.len() - 2] >= d[d.len() - 1] {
        let n = d.len();
        if n >= 3 {
            reg[n - 3] = d[n - 2] == d[n - 1];
        }
        d.remove(n - 2);
        reg.pop();
    }
    while d.len() >= 2 && d[1] <= d[0] {
        if d.len() >= 3 {
            reg[1] = d[1] == d[0];
        }
        d.remove(1);
        reg.remove(0);
    }
    if d.len() < 2 {
        return None;
    }
    // moving dates to month ends can leave the start after the end: see compare_dates
    Some((d, reg))
}

fn dates_of(s: &Schedule) -> Vec<i32> {
    s.dates().iter().map(ser).collect()
}
fn flags_of(s: &Schedule) -> Vec<bool> {
    (1..s.size()).map(|i| s.is_regular(i)).collect()
}

fn lab(cx: &Cx, r: DateGenerationRule) {
    cx.label(match r {
        Backward => "Backward",
        Forward => "Forward",
        Zero => "Zero",
        ThirdWednesday => "ThirdWednesday",
        ThirdWednesdayInclusive => "ThirdWednesdayInclusive",
        Twentieth => "Twentieth",
        TwentiethIMM => "TwentiethIMM",
        OldCDS => "OldCDS",
        CDS => "CDS",
        CDS2015 => "CDS2015",
    })
}

fn arb_tenor() -> impl Strategy<Value = (i32, u8)> + Clone {
    prop_oneof![
        6 => prop_oneof![Just(1), Just(2), Just(3), Just(4), Just(6), Just(12)].prop_map(|n| (n, 2u8)),
        2 => (1i32..19).prop_map(|n| (n, 2u8)),
        2 => (1i32..5).prop_map(|n| (n, 3u8)),
        2 => (1i32..27).prop_map(|n| (n, 1u8)),
        2 => (5i32..120).prop_map(|n| (n, 0u8)),
        1 => (1i32..5).prop_map(|n| (n, 0u8)),
    ]
}

/// start and end dates with a tenor: exact numbers of tenors, and stubs of any length
fn arb_span() -> impl Strategy<Value = (CalSpec, i32, i32, (i32, u8))> + Clone {
    let y = |a, b| arb_date(y0(a), y1(b));
    let eff = prop_oneof![12 => y(1960, 2080), 1 => y(1905, 1960), 1 => y(2080, 2140), 2 => y(2130, 2185)];
    (arb_cal(eff), arb_tenor(), prop_oneof![24 => 0i32..30, 1 => 30i32..400], prop_oneof![2 => Just(0i32), 1 => -3i32..4, 1 => -400i32..400], prop::bool::weighted(0.3))
        .prop_map(|((cal, eff), (n, unit), k, off, snap)| {
            let eff = if snap { eom(eff) } else { eff };
            // no longer than 60 years
            let k = k.min(21_900 / (n * [1, 7, 30, 365][unit as usize]));
            let term = (add_unit(eff, k * n, unit) + off).clamp(eff + 1, y1(2190));
            let term = if snap && off == 0 && unit >= 2 { eom(term) } else { term };
            (cal, eff, term, (n, unit))
        })
}

fn arb_stub() -> impl Strategy<Value = Option<(f64, u8)>> + Clone {
    prop::option::weighted(0.3, (0.0f64..1.0, 0u8..6))
}

pub fn arb_bf() -> impl Strategy<Value = SchedSpec> + Clone {
    (arb_span(), 0u8..7, 0u8..7, prop_oneof![5 => Just(0u8), 5 => Just(1u8), 1 => Just(2u8)], prop::bool::weighted(0.5), (arb_stub(), arb_stub()), prop::bool::weighted(0.5))
        .prop_map(|((cal, eff, term, (n, unit)), conv, tconv, rule, eom_, (a, b), same)| {
            let mut s = SchedSpec {
                cal, eval: eff, eff, term, n, unit, conv, tconv: if same { conv } else { tconv }, rule, eom: eom_, first: 0, ntl: 0,
            };
            let len = (term - eff) as f64;
            if let (Some((f, k)), true) = (a, rule < 2) {
                let x = eff + 1 + (f * len) as i32;
                s.first = match k { 0 => eom(x), 1 => s.roll(eff, 1), 2 => eom(eff), 3 => eff + 1 + (f * 6.0) as i32, _ => x }.clamp(eff + 1, term);
            }
            if let (Some((f, k)), true) = (b, rule < 2) {
                let x = eff + (f * len) as i32;
                s.ntl = match k { 0 => eom(x), 1 => s.roll(term, -1), 2 => eom(add_months(term, -1)), 3 => term - 1 - (f * 6.0) as i32, _ => x }.clamp(eff, term - 1);
                if s.first != 0 && s.ntl < s.first {
                    std::mem::swap(&mut s.first, &mut s.ntl);
                    s.first = s.first.max(eff + 1);
                    s.ntl = s.ntl.min(term - 1);
                    if s.ntl < s.first {
                        s.ntl = 0;
                    }
                }
            }
            s
        })
}

pub fn arb_imm() -> impl Strategy<Value = SchedSpec> + Clone {
    let eff = prop_oneof![12 => arb_date(y0(1960), y1(2080)), 1 => arb_date(y0(1905), y1(1960)), 1 => arb_date(y0(2080), y1(2110)), 1 => arb_date(y0(2110), y1(2170))];
    (arb_cal(eff), 3u8..10, prop_oneof![8 => Just((3i32, 2u8)), 2 => Just((6, 2)), 2 => Just((1, 2)), 2 => Just((1, 3)), 2 => (1i32..30, Just(2u8)), 1 => (1i32..4, Just(3u8)), 1 => (1i32..60, Just(1u8)), 1 => (5i32..400, Just(0u8))], 0i32..80, -40i32..60, (0u8..7, 0u8..7), (0u8..4, 0u8..4))
        .prop_map(|((cal, eff), rule, (n, unit), k, off, (conv, tconv), (snap, near))| {
            // one case in four starts on a twentieth, one in four just before or after it
            let eff = match snap { 0 => next20(eff, true), 1 => next20(eff, true) - 2 + near as i32, _ => eff };
            let term = (add_months(eff, k * 3) + off).max(eff + 1);
            let term = if near == 0 { next20(term, true) } else { term };
            SchedSpec { cal, eval: eff, eff, term, n, unit, conv, tconv, rule, eom: false, first: 0, ntl: 0 }
        })
}

fn show_spec(s: &SchedSpec) -> String {
    let o = |x| if x == 0 { "none".to_string() } else { show(x) };
    format!(
        "{:?} {} to {} every {}{} ({}, {:?}/{:?}, eom {}, first {}, next to last {}, evaluated {})",
        s.rule(), o(s.eff), o(s.term), s.n, ["D", "W", "M", "Y"][s.unit as usize], href::NAMES[s.cal.market as usize], s.conv(), s.tconv(), s.eom, o(s.first), o(s.ntl), o(s.eval)
    )
}

fn compare_dates(sp: &SchedSpec) -> Result<Option<Schedule>, String> {
    let want = model(sp);
    match (want, quiet(|| sp.build())) {
        (None, Ok(s)) => Err(format!("{}: must be rejected but gave {}", show_spec(sp), shows(&dates_of(&s)))),
        (None, Err(_)) => Ok(None),
        // month ends past an explicit stub date and the end: nothing to say
        (Some((w, _)), _) if w[0] >= w[w.len() - 1] => Ok(None),
        (Some((w, _)), Err(e)) => Err(format!("{}: must give {} but failed: {e}", show_spec(sp), shows(&w))),
        (Some((w, _)), Ok(s)) => {
            let g = dates_of(&s);
            if g != w {
                return Err(format!("{}: gave {} instead of {}", show_spec(sp), shows(&g), shows(&w)));
            }
            Ok(Some(s))
        }
    }
}

// ---------------------------------------------------------------------------------------- S01

pub fn s01(s: &mut Session) {
    s.rule("Schedules generated backward, forward and without intermediate dates over 18 markets with overridden days, all conventions, tenors in every unit, stubs and month-end rolling are compared date for date with a reference generator. Non-trivial: an explicit stub date, a termination not a whole number of tenors away, month-end rolling, or more than 3 dates.");
    s.check("dates", 12_000, 300_000, arb_bf, |sp, cx| {
        lab(cx, sp.rule());
        cx.label_if(sp.first != 0, "explicit first date");
        cx.label_if(sp.ntl != 0, "explicit next-to-last date");
        cx.label_if(sp.eom && sp.unit >= 2 && is_eom(sp.eff), "month-end rolling");
        cx.label_if(sp.conv != sp.tconv, "termination convention differs");
        let r = compare_dates(sp)?;
        cx.label_if(r.is_none(), "rejected");
        cx.nontrivial_if(r.map_or(true, |r| r.size() > 3) || sp.first != 0 || sp.ntl != 0 || sp.eom);
        Ok(())
    });
    // an expired or running instrument whose effective date is not given
    s.check("no_effective_date", 3000, 150_000, || {
        (arb_bf(), 0.0f64..1.2, 0i32..12000).prop_map(|(mut sp, f, back)| {
            sp.rule = 0;
            sp.first = 0;
            let back = back.min(100 * sp.n * [1, 7, 30, 365][sp.unit as usize]);
            sp.eval = (sp.eff - back).max(y0(1935));
            if f > 1.0 { sp.eval = sp.term + back % 50 }
            if sp.ntl != 0 && sp.ntl <= sp.eval { sp.ntl = 0 }
            sp.eff = 0;
            sp
        })
    }, |sp, cx| {
        cx.label_if(sp.ntl != 0, "explicit next-to-last date");
        cx.nontrivial();
        if let Some(r) = compare_dates(sp)? {
            // the year count assumes 366 days a year, so it may fall short by a day a year
            ensure!(ser(r.start_date()) <= sp.eval + 31 + (sp.term - sp.eval) / 366, "{}: starts on {:?}, after the evaluation date", show_spec(sp), r.start_date());
        }
        Ok(())
    });
    // the builder's defaults and setters describe the same schedule
    s.check("builder", 3000, 100_000, || (arb_bf(), 0u8..64), |(sp, m), cx| {
        let mut full = sp.clone();
        let mut b = sp.builder();
        if m & 1 != 0 { b = b.with_convention(sp.conv()) } else { full.conv = 0 }
        if m & 2 != 0 { b = b.with_termination_convention(sp.tconv()) } else { full.tconv = full.conv }
        if m & 4 != 0 {
            b = match sp.rule() { Backward if m & 1 != 0 => b.backwards(), Forward if m & 1 != 0 => b.forwards(), r => b.with_rule(r) }
        } else {
            full.rule = 0
        }
        if m & 8 != 0 { b = b.with_end_of_month(sp.eom) } else { full.eom = false }
        if m & 16 != 0 { b = b.with_first_date(odate(sp.first)) } else { full.first = 0 }
        if m & 32 != 0 { b = b.with_next_to_last_date(odate(sp.ntl)) } else { full.ntl = 0 }
        let want = model(&full).map(|x| x.0);
        let got = quiet(|| b.build()).ok();
        ensure_eq!(got.as_ref().map(dates_of), want, "builder with {m:06b} for {}", show_spec(&full));
        if let Some(g) = got {
            ensure_eq!(g.business_day_convention(), full.conv(), "convention of a built schedule");
            ensure_eq!(g.end_of_month(), full.eom && full.unit >= 2, "month-end flag of a built schedule");
            if full.rule() != Zero {
                ensure_eq!((g.tenor().length, g.tenor().unit), (full.n, UNITS[full.unit as usize]), "tenor of a built schedule");
            }
        }
        cx.nontrivial_if(*m != 63);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- S02

pub fn s02(s: &mut Session) {
    s.rule("Schedules on third Wednesdays, twentieths and credit-default-swap dates are compared with a reference generator, and each unadjusted date with the rule's defining day. Non-trivial: at least 3 dates or a start within 30 days of a roll date.");
        s.check("dates", 12_000, 500_000, arb_imm, |sp, cx| {
        lab(cx, sp.rule());
        let r = compare_dates(sp)?;
        cx.nontrivial_if(r.map_or(true, |r| r.size() > 2) || next20(sp.eff, true) - sp.eff < 30);
        Ok(())
    });
    s.check("anchors", 8000, 300_000, || arb_imm().prop_map(|mut s| {
        s.cal = CalSpec::plain(0);
        s.conv = 4;
        s.tconv = 4;
        if s.unit < 2 || s.rule > 5 && s.unit == 2 && s.n % 3 != 0 {
            (s.n, s.unit) = (3, 2); // IMM months only make sense every 3 months
        }
        s
    }), |sp, cx| {
        lab(cx, sp.rule());
        let Ok(sc) = quiet(|| sp.build()) else { return if model(sp).is_some() { Err(format!("{} failed", show_spec(sp))) } else { Ok(()) } };
        let d = dates_of(&sc);
        let n = d.len();
        cx.nontrivial_if(n > 2);
        let imm20 = |k: i32| next20(k, true) == k;
        for (i, &k) in d.iter().enumerate() {
            let ok = match sp.rule() {
                Twentieth => i == 0 || ymd(k).2 == 20,
                TwentiethIMM | OldCDS => i == 0 || imm20(k),
                CDS | CDS2015 => imm20(k),
                ThirdWednesday => i == 0 || i == n - 1 || wed3(k) == k,
                _ => wed3(k) == k,
            };
            ensure!(ok, "{}: date {i} is {}", show_spec(sp), show(k));
        }
        match sp.rule() {
            CDS | CDS2015 => ensure!(d[0] <= sp.eff && d[1] > sp.eff, "{}: the first period {} - {} does not cover the start", show_spec(sp), show(d[0]), show(d[1])),
            ThirdWednesdayInclusive => {}
            _ => ensure_eq!(d[0], sp.eff, "{}: first date", show_spec(sp)),
        }
        if !matches!(sp.rule(), ThirdWednesday | ThirdWednesdayInclusive) {
            ensure!(d[n - 1] >= sp.term || sp.rule() == OldCDS, "{}: ends on {} before the termination date", show_spec(sp), show(d[n - 1]));
        }
        if sp.rule() == OldCDS && n > 2 {
            ensure!(d[1] - d[0] >= 30, "{}: first period of {} days", show_spec(sp), d[1] - d[0]);
        }
        Ok(())
    });
    s.check("invalid", 3000, 60_000, || (arb_imm(), 0u8..6, 0.0f64..1.0), |(sp, k, f), cx| {
        let mut sp = sp.clone();
        let x = sp.eff + ((sp.term - sp.eff) as f64 * f) as i32;
        match k {
            0 => sp.eom = true,
            1 => sp.first = x,
            2 => sp.ntl = x,
            3 => { sp.first = wed3(x); sp.first = sp.first.clamp(sp.eff + 1, sp.term) }
            4 => sp.ntl = wed3(x),
            _ => {
                sp.first = wed3(x);
                sp.ntl = wed3(sp.first + ((sp.term - sp.first) as f64 * f) as i32)
            }
        }
        cx.nontrivial();
        if sp.rule() == ThirdWednesday && k != &0 && model(&sp).is_some() {
            return compare_dates(&sp).map(|_| ());
        }
        compare_dates(&sp).map(|_| ())
    });
}

// ---------------------------------------------------------------------------------------- S03

pub fn s03(s: &mut Session) {
    s.rule("Every generated schedule, of any rule, is checked for order, business days, coverage and consistent accessors without a model of generation. Non-trivial: at least 3 dates.");
    s.assume("Order is required of the rules with an IMM date for tenors of a month or more.");
    s.check("structure", 12_000, 400_000, || prop_oneof![2 => arb_bf(), 1 => arb_imm()], |sp, cx| {
        lab(cx, sp.rule());
        let Ok(sc) = quiet(|| sp.build()) else {
            cx.label("rejected");
            return Ok(());
        };
        let cal = sp.cal.build().1;
        let d = dates_of(&sc);
        let n = d.len();
        let what = || format!("{}: {}", show_spec(sp), shows(&d));
        cx.nontrivial_if(n > 2);
        ensure!(n >= 2, "{} has a single date", what());
        ensure_eq!(sc.size(), n, "size of {}", what());
        ensure!(!sc.empty() && sc.has_is_regular(), "{} looks empty", what());
        ensure_eq!((ser(sc.start_date()), ser(sc.end_date())), (d[0], d[n - 1]), "ends of {}", what());
        ensure!((0..n).all(|i| ser(&sc[i]) == d[i]), "indexing of {}", what());
        let _ = flags_of(&sc);
        ensure!(quiet(|| sc.is_regular(0)).is_err() && quiet(|| sc.is_regular(n)).is_err(), "regularity of a period that does not exist in {}", what());
        let eom_branch = sp.eom && sp.unit >= 2;
        // several weeks share a third Wednesday
        let strict = sp.unit >= 2 || matches!(sp.rule(), Backward | Forward | Zero);
        if strict {
            ensure!(d.windows(2).all(|w| w[0] < w[1]), "not increasing: {}", what());
        }
        if sp.conv() != Unadjusted {
            let lo = if sp.rule() == OldCDS || eom_branch { 1 } else { 0 };
            for i in lo..n - 1 {
                ensure!(cal.business(d[i]), "{} is not a business day in {}", show(d[i]), what());
            }
        }
        // month-end rolling is not applied when it would leave a single date
        if sp.tconv() != Unadjusted && !matches!(sp.rule(), CDS | CDS2015) && (!eom_branch || (sp.first == 0 && sp.ntl == 0 && n > 2)) {
            ensure!(cal.business(d[n - 1]), "the last date of {} is not a business day", what());
        }
        if matches!(sp.rule(), Backward | Forward | Zero) && !eom_branch {
            ensure_eq!(d[0], cal.adjust(sp.eff, sp.conv()), "first date of {}", what());
            // a roll that is the same business day may stand for the termination date
            if sp.conv == sp.tconv || sp.rule() != Forward {
                ensure_eq!(d[n - 1], cal.adjust(sp.term, sp.tconv()), "last date of {}", what());
            }
        }
        Ok(())
    });
    // generation commutes with adjustment: adjusting the unadjusted schedule gives the adjusted one
    s.check("adjust_commutes", 5000, 200_000, arb_bf, |sp, cx| {
        let mut sp = sp.clone();
        sp.eom = false;
        sp.tconv = sp.conv;
        let mut raw = sp.clone();
        raw.conv = 4;
        raw.tconv = 4;
        let (Ok(a), Ok(b)) = (quiet(|| sp.build()), quiet(|| raw.build())) else { return Ok(()) };
        let cal = sp.cal.build().1;
        let mut w: Vec<i32> = dates_of(&b).iter().map(|k| cal.adjust(*k, sp.conv())).collect();
        w.dedup();
        cx.nontrivial_if(w.len() > 2 && sp.conv() != Unadjusted);
        ensure_eq!(dates_of(&a), w, "{} against the adjusted dates of its unadjusted version", show_spec(&sp));
        Ok(())
    });
    // going further forward only adds dates
    s.check("extension", 5000, 200_000, || (arb_bf(), 1i32..8), |(sp, more), cx| {
        let mut a = sp.clone();
        a.rule = 1;
        a.tconv = a.conv;
        a.first = 0;
        a.ntl = 0;
        let k = ((a.term - a.eff) / [1, 7, 28, 365][a.unit as usize] / a.n).clamp(1, 30);
        a.term = a.roll(a.eff, k);
        let mut b = a.clone();
        b.term = a.roll(a.eff, k + more);
        let (Ok(x), Ok(y)) = (quiet(|| a.build()), quiet(|| b.build())) else { return Ok(()) };
        let (x, y) = (dates_of(&x), dates_of(&y));
        cx.nontrivial_if(x.len() > 2);
        let x = if a.eom { x[..x.len() - 1].to_vec() } else { x }; // the last date is rolled on its own terms
        ensure!(y.len() >= x.len() && y[..x.len()] == x[..], "{}: {} is not the beginning of {}", show_spec(&a), shows(&x), shows(&y));
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- S04

pub fn s04(s: &mut Session) {
    s.rule("The regular/irregular flag of every period of generated schedules of all rules is compared with the reference generator, and unadjusted regular periods with the tenor itself. Non-trivial: the schedule has an irregular period.");
    s.check("flags", 12_000, 500_000, || prop_oneof![2 => arb_bf(), 1 => arb_imm()], |sp, cx| {
        lab(cx, sp.rule());
        let (Some((d, want)), Ok(sc)) = (model(sp), quiet(|| sp.build())) else { return Ok(()) };
        if dates_of(&sc) != d {
            return Ok(()); // S01 and S02 decide the dates
        }
        ensure_eq!(sc.size(), want.len() + 1, "number of dates of {}", show_spec(sp));
        ensure_eq!(flags_of(&sc), want, "regular periods of {}: {}", show_spec(sp), shows(&d));
        cx.nontrivial_if(want.iter().any(|r| !r));
        Ok(())
    });
    s.check("meaning", 8000, 300_000, || arb_bf().prop_map(|mut s| {
        s.conv = 4;
        s.tconv = 4;
        s.eom = false;
        s.rule %= 2;
        s
    }), |sp, cx| {
        let Ok(sc) = quiet(|| sp.build()) else { return Ok(()) };
        let (d, f) = (dates_of(&sc), flags_of(&sc));
        cx.nontrivial_if(f.iter().any(|r| !r) || f.len() > 2);
        let n = f.len();
        for i in 0..n {
            let (a, b) = (d[i], d[i + 1]);
            if f[i] {
                // both ends are whole numbers of tenors from one date
                let seeds: Vec<i32> = if sp.rule == 0 {
                    vec![sp.term, if sp.ntl != 0 { sp.ntl } else { sp.term }]
                } else {
                    vec![sp.eff, if sp.first != 0 { sp.first } else { sp.eff }]
                };
                let dir = if sp.rule == 0 { -1 } else { 1 };
                let on = |x: i32, y: i32| seeds.iter().any(|s| {
                    (0..((sp.term - sp.eff) / [1, 7, 28, 365][sp.unit as usize] / sp.n + 2)).any(|k| {
                        let (p, q) = (sp.roll(*s, dir * k), sp.roll(*s, dir * (k + 1)));
                        (p.min(q), p.max(q)) == (x, y)
                    })
                });
                ensure!(on(a, b), "{}: the period {} - {} is marked regular", show_spec(sp), show(a), show(b));
            } else {
                // only the periods touching the ends or the explicit stub dates may be irregular
                ensure!(i == 0 || i == n - 1 || b == sp.first || a == sp.first || b == sp.ntl || a == sp.ntl, "{}: the period {} - {} is marked irregular", show_spec(sp), show(a), show(b));
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- S05

pub fn s05(s: &mut Session) {
    s.rule("Next and previous dates and truncations of generated schedules are compared with the list of dates and flags they came from; truncations are also chained. Non-trivial: the reference or truncation date lies strictly inside the schedule.");
    let strat = || (prop_oneof![3 => arb_bf(), 1 => arb_imm()], prop::collection::vec((0u8..3, -0.1f64..1.1, 0u8..4, prop_oneof![3 => 0usize..60, 1 => 0usize..2520]), 1..6));
    s.check("search", 6000, 200_000, strat, |(sp, qs), cx| {
        let Ok(sc) = quiet(|| sp.build()) else { return Ok(()) };
        let d = dates_of(&sc);
        if d.windows(2).any(|w| w[0] >= w[1]) {
            return Ok(());
        }
        for &(_, f, snap, k) in qs {
            let t = d[0] + ((d[d.len() - 1] - d[0]) as f64 * f) as i32;
            let t = if snap < 2 { d[k % d.len()] + snap as i32 } else { t };
            let t = t.max(y0(1930));
            let nx = d.iter().find(|x| **x >= t).copied().unwrap_or(0);
            let pv = d.iter().rev().find(|x| **x < t).copied().unwrap_or(0);
            ensure_eq!(call("next_date", || sc.next_date(&date(t)))?, odate(nx), "next date from {} in {}", show(t), shows(&d));
            ensure_eq!(call("previous_date", || sc.previous_date(&date(t)))?, odate(pv), "previous date from {} in {}", show(t), shows(&d));
            cx.nontrivial_if(nx != 0 && pv != 0);
        }
        // no reference date: the evaluation date
        let e = sp.eval;
        let nx = d.iter().find(|x| **x >= e).copied().unwrap_or(0);
        let pv = d.iter().rev().find(|x| **x < e).copied().unwrap_or(0);
        ensure_eq!((sc.next_date(&Date::default()), sc.previous_date(&Date::default())), (odate(nx), odate(pv)), "next and previous dates from the evaluation date {} in {}", show(e), shows(&d));
        Ok(())
    });
    s.check("truncate", 6000, 200_000, strat, |(sp, ops), cx| {
        let Ok(mut sc) = quiet(|| sp.build()) else { return Ok(()) };
        let (mut d, mut f) = (dates_of(&sc), flags_of(&sc));
        let whole = (sc.tenor(), sc.end_of_month());
        if d.windows(2).any(|w| w[0] >= w[1]) {
            return Ok(());
        }
        for &(op, fr, snap, k) in ops {
            let n = d.len();
            let t = d[0] + ((d[n - 1] - d[0]) as f64 * fr) as i32;
            let t = if snap == 0 { d[k % n] } else { t };
            let before = (d.clone(), f.clone());
            if op == 0 {
                // dates from t on
                let r = quiet(|| sc.after(&date(t)));
                if t >= d[n - 1] {
                    ensure!(r.is_err(), "dropping everything before {} from {} must fail", show(t), shows(&d));
                    continue;
                }
                let r = r.map_err(|e| format!("after {} of {}: {e}", show(t), shows(&d)))?;
                if t > d[0] {
                    let i = d.iter().position(|x| *x >= t).unwrap();
                    f = f[i..].to_vec();
                    d = d[i..].to_vec();
                    if d[0] != t {
                        d.insert(0, t);
                        f.insert(0, false);
                    }
                }
                ensure_eq!((dates_of(&r), flags_of(&r)), (d.clone(), f.clone()), "{} {:?} from {}", shows(&before.0), before.1, show(t));
                ensure_eq!((dates_of(&sc), flags_of(&sc)), before, "the original schedule after a truncation");
                sc = r;
            } else {
                let r = quiet(|| sc.until(&date(t)));
                if t <= d[0] {
                    ensure!(r.is_err(), "dropping everything after {} from {} must fail", show(t), shows(&d));
                    continue;
                }
                let r = r.map_err(|e| format!("until {} of {}: {e}", show(t), shows(&d)))?;
                if t < d[n - 1] {
                    let i = d.iter().rposition(|x| *x <= t).unwrap();
                    f.truncate(i);
                    d.truncate(i + 1);
                    if d[i] != t {
                        d.push(t);
                        f.push(false);
                    }
                }
                ensure_eq!((dates_of(&r), flags_of(&r)), (d.clone(), f.clone()), "{} {:?} until {}", shows(&before.0), before.1, show(t));
                ensure_eq!((dates_of(&sc), flags_of(&sc)), before, "the original schedule after a truncation");
                sc = r;
            }
            cx.nontrivial_if(d != before.0);
            ensure_eq!((sc.business_day_convention(), sc.calendar().name()), (sp.conv(), sp.cal.build().0.name()), "convention and calendar of a truncated schedule");
            ensure_eq!((sc.tenor(), sc.end_of_month()), whole, "tenor and end of month of a truncated schedule");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- S06

pub fn s06(s: &mut Session) {
    s.rule("Standard credit-default-swap maturities and previous twentieths are compared with their closed forms for every trade date of the generated years. Non-trivial: every case; trade dates within 2 days of a roll date are labelled.");
    let td = || (arb_date(y0(1930), y1(2130)), 0u8..3, -2i32..3).prop_map(|(d, k, o)| if k == 0 { next20(d, true) + o } else { d });
    s.check("maturity", 15_000, 600_000, move || (td(), 7u8..10, prop_oneof![(0i32..15).prop_map(|n| (n * 3, 2u8)), (0i32..31).prop_map(|n| (n, 3u8)), (-3i32..0).prop_map(|n| (n * 3, 2u8)), (15i32..200).prop_map(|n| (n * 3, 2u8)), (31i32..60).prop_map(|n| (n, 3u8)), (1i32..40).prop_map(|n| (n, 2u8))]), |&(t, rule, (n, unit)), cx| {
        lab(cx, RULES[rule as usize]);
        cx.nontrivial();
        cx.label_if(next20(t - 2, true) <= t + 2, "near a roll date");
        let months = if unit == 3 { 12 * n } else { n };
        let got = quiet(|| cds_maturity(&date(t), Period::new(n, UNITS[unit as usize]), RULES[rule as usize]));
        let what = format!("{:?} maturity for {} + {months} months", RULES[rule as usize], show(t));
        if months % 3 != 0 {
            ensure!(got.is_err(), "{what} must be rejected");
            return Ok(());
        }
        if RULES[rule as usize] == OldCDS && n == 0 {
            ensure!(got.is_err(), "{what} must be rejected");
            return Ok(());
        }
        let next = next20(t + 1, true);
        let base = if RULES[rule as usize] == CDS2015 {
            // semi-annual rolls on 20 March and 20 September: June or December
            let (y, m, _) = ymd(prev20(t, true));
            let b = match m { 3 | 6 => serial(y, 6, 20), 9 => serial(y, 12, 20), _ => serial(y, 12, 20) };
            if n == 0 && (m == 6 || m == 12) {
                ensure_eq!(got.map_err(|e| e)?, Date::default(), "{what}");
                return Ok(());
            }
            b
        } else {
            next
        };
        let want = add_months(base, months);
        if want <= t {
            ensure!(got.is_err(), "{what} is not after the trade date and must be rejected");
        } else {
            ensure_eq!(ser(&got?), want, "{what}");
        }
        Ok(())
    });
    s.check("previous_twentieth", 8000, 100_000, move || (td(), 0u8..10), |&(t, rule), cx| {
        cx.nontrivial();
        let r = RULES[rule as usize];
        let imm = matches!(r, TwentiethIMM | OldCDS | CDS | CDS2015);
        ensure_eq!(ser(&call("previous_twentieth", || previous_twentieth(&date(t), r))?), prev20(t, imm), "{r:?}: twentieth on or before {}", show(t));
        Ok(())
    });
    s.check("maturity_monotone", 5000, 100_000, move || (td(), 0i32..120, 8u8..10, 1i32..40), |&(t, dt, rule, q), cx| {
        let p = Period::new(3 * q, UNITS[2]);
        let r = RULES[rule as usize];
        let (a, b) = (quiet(|| cds_maturity(&date(t), p, r)), quiet(|| cds_maturity(&date(t + dt), p, r)));
        let (a, b) = (ser(&a?), ser(&b?));
        ensure!(a <= b, "{r:?} {q} quarters: trading on {} matures on {} but later, on {}, matures on {}", show(t), show(a), show(t + dt), show(b));
        cx.nontrivial_if(a != b);
        Ok(())
    });
}
