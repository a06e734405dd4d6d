//! B01-B04: bonds.
use crate::civil::*;
use crate::engine::*;
use crate::holidays_ref as href;
use crate::p_cal::{arb_cal, CalSpec, CONV};
use crate::p_dates::UNITS;
use crate::p_dc::{arb_coupons, close};
use crate::p_flows::{arb_disc, arb_leg_on, arb_when, ldc, pv, when, Cpn, Disc, Flow, LegSpec, When};
use crate::p_rates::{comp, FREQS};
use crate::p_sched::arb_bf;
use proptest::option;
use proptest::prelude::*;
use rust_quantlib::cashflows::cashflow;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit;
use rust_quantlib::instruments::bond::Bond;
use rust_quantlib::instruments::fixedratebond::FixedRateBond;
use rust_quantlib::instruments::zerocouponbond::ZeroCouponBond;
use rust_quantlib::maths::solvers1d::brent::Brent;
use rust_quantlib::maths::solvers1d::finitedifferencenewtonsafe::FiniteDifferenceNewtonSafe;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BondSpec {
    pub leg: LegSpec,
    pub redemption: Option<f64>,
    /// days from the first accrual date
    pub issue: Option<i32>,
    pub settle: i32,
}

pub struct BondModel {
    pub cpn: Vec<Cpn>,
    pub flows: Vec<Flow>,
    pub face: f64,
    pub end: i32,
    pub issue: Option<i32>,
}

impl BondModel {
    pub fn accrued(&self, d: i32) -> Option<f64> {
        if d >= self.end {
            return Some(0.0);
        }
        // the coupons of the next payment date
        let next = self.flows.iter().filter(|f| f.pay() > d).map(|f| f.pay()).min();
        let mut sum = 0.0;
        for c in self.cpn.iter().filter(|c| Some(c.pay) == next) {
            sum += c.accrued(d)?;
        }
        Some(sum * 100.0 / self.face)
    }
}

impl BondSpec {
    pub fn model(&self) -> Option<BondModel> {
        let cpn = self.leg.model()?;
        if cpn.iter().any(|c| c.e < c.s) {
            return None;
        }
        let face = self.leg.notionals[0];
        let mut flows: Vec<Flow> = cpn.iter().cloned().map(Flow::C).collect();
        let end = cpn[cpn.len() - 1].pay;
        flows.push(Flow::P(end, face * self.redemption.unwrap_or(100.0) / 100.0));
        flows.sort_by_key(|f| f.pay());
        let issue = self.issue.map(|o| cpn[0].s + o);
        Some(BondModel { cpn, flows, face, end, issue })
    }
    pub fn build(&self, m: &BondModel) -> FixedRateBond {
        let l = &self.leg;
        let rates = l.rates.iter().map(|r| r.0).collect();
        let plain = l.payconv.is_none() && self.redemption.is_none() && self.issue.is_none() && l.paycal.is_none() && l.ex.is_none() && l.fdc.is_none();
        if plain {
            return FixedRateBond::new(self.settle, m.face, l.schedule(), rates, ldc(l.dc, l.term()));
        }
        FixedRateBond::new_with_options(
            self.settle,
            m.face,
            l.schedule(),
            rates,
            ldc(l.dc, l.term()),
            l.payconv.map(|k| CONV[k as usize]),
            self.redemption,
            m.issue.map(date),
            l.paycal.map(href::calendar),
            l.ex.map(|x| Period::new(x.0, UNITS[x.1 as usize])),
            l.ex.map(|x| href::calendar(x.2)),
            l.ex.map(|x| CONV[x.3 as usize]),
            l.ex.map(|x| x.4),
            l.fdc.map(|k| ldc(k, l.term())),
        )
    }
}

pub fn arb_bond() -> impl Strategy<Value = BondSpec> + Clone {
    (
        arb_leg_on(prop_oneof![2 => arb_bf(), 5 => arb_coupons()]),
        (prop_oneof![3 => Just(1.0f64), 2 => 0.01f64..100.0], prop_oneof![2 => Just(100.0f64), 2 => Just(1e6f64), 6 => 10.0f64..20_000.0, 1 => 0.001f64..10.0, 1 => 1e6f64..1e11, 1 => -1e6f64..-1.0]),
        option::weighted(0.5, prop_oneof![1 => Just(100.0f64), 3 => 50.0f64..130.0]),
        option::weighted(0.4, -60i32..400),
        prop_oneof![9 => 0i32..8, 1 => 8i32..60],
        any::<bool>(),
    )
        .prop_map(|(mut leg, (scale, face), redemption, issue, settle, plain)| {
            leg.notionals = vec![if face == 100.0 { 100.0 * scale } else { face }];
            leg.rates.iter_mut().for_each(|r| (r.1, r.2) = (0, 0));
            leg.lag = None;
            leg.ldc = None;
            let mut b = BondSpec { leg, redemption, issue, settle };
            if plain {
                b.leg.payconv = None;
                b.leg.paycal = None;
                b.leg.ex = None;
                b.leg.fdc = None;
                b.redemption = None;
                b.issue = None;
            }
            b
        })
}

fn null() -> Date {
    Date::default()
}

pub fn b01(s: &mut Session) {
    s.rule(
        "A case is a fixed rate bond: a schedule specification, face, coupon rates, day counters, payment \
         calendar and convention, redemption, issue date, ex-coupon period; non-trivial with two or more \
         coupons. The flows (dates, amounts, accrual dates, order), notional schedule, maturity and issue \
         date are compared with a model; zero coupon bonds likewise.",
    );
    s.check("fixed_rate", 5_000, 150_000, arb_bond, |b: &BondSpec, cx| {
        let Some(m) = b.model() else { return Ok(()) };
        let bond = call("building the bond", || b.build(&m))?;
        cx.nontrivial_if(m.cpn.len() > 1);
        cx.label_if(b.leg.ex.is_some(), "ex-coupon");
        cx.label_if(m.cpn.windows(2).any(|w| w[0].pay == w[1].pay), "two coupons paid together");
        cx.label_if(b.leg.fdc.is_some(), "first-period day counter");
        let f = bond.cashflows();
        ensure_eq!(f.len(), m.flows.len(), "number of cash flows");
        ensure!(f.windows(2).all(|w| w[0].date() <= w[1].date()), "cash flows out of date order");
        for (i, (x, y)) in f.iter().zip(&m.flows).enumerate() {
            ensure_eq!(x.date(), date(y.pay()), "date of cash flow {i}");
            let span = match y {
                Flow::C(c) => (date(c.s), date(c.e), if c.ex == 0 { null() } else { date(c.ex) }),
                Flow::P(..) => (null(), null(), null()),
            };
            ensure_eq!((x.accrual_start_date(), x.accrual_end_date(), x.ex_coupon_date()), span, "accrual dates and ex-coupon date of cash flow {i} on {}", show(y.pay()));
            if let Some(a) = y.amount() {
                let g = call("amount", || x.amount())?;
                ensure!((g - a).abs() <= 1e-10 * m.face.abs().max(a.abs()), "cash flow {i} on {} pays {g}, expected {a}", show(y.pay()));
            }
        }
        let red = m.face * b.redemption.unwrap_or(100.0) / 100.0;
        ensure_eq!(bond.redemptions.len(), 1, "redemptions");
        ensure!(close(bond.redemptions[0].amount(), red, 1e-12) && bond.redemptions[0].date() == date(m.end), "redemption of {} on {:?}", bond.redemptions[0].amount(), bond.redemptions[0].date());
        ensure!(bond.notionals().len() == 2 && bond.notionals()[0] == m.face && bond.notionals()[1] == 0.0, "notionals {:?}", bond.notionals());
        ensure_eq!(*bond.notional_schedule(), vec![null(), date(m.end)], "notional schedule");
        let mat = m.cpn.iter().map(|c| c.e).max().unwrap();
        ensure_eq!(bond.maturity_date(), date(mat), "maturity");
        ensure_eq!(bond.maturity_date, date(m.cpn[m.cpn.len() - 1].e), "maturity field");
        ensure_eq!(bond.issue_date(), m.issue.map_or(null(), date), "issue date");
        ensure_eq!(bond.settlement_days(), b.settle, "settlement days");
        ensure_eq!(bond.calendar().name(), b.leg.paycal().build().0.name(), "calendar");
        let (y, mo, d) = ymd(m.cpn[m.cpn.len() - 1].e);
        ensure_eq!(format!("{bond:?}"), format!("FRB/{y}-{mo:02}-{d:02}"), "printed form");
        Ok(())
    });
    s.check("refused", 300, 5_000, || (arb_bond(), any::<bool>()), |(b, _): &(BondSpec, bool), cx| {
        let Some(m) = b.model() else { return Ok(()) };
        cx.nontrivial();
        let mut b = b.clone();
        b.leg.rates.clear();
        ensure!(quiet(|| b.build(&m)).is_err(), "a bond without coupon rates is accepted");
        Ok(())
    });
    s.check(
        "zero_coupon",
        4_000,
        120_000,
        || (arb_cal(prop_oneof![8 => arb_date(y0(1970), y1(2120)), 1 => arb_date(y0(2120), y1(2190))]), option::weighted(0.6, 0u8..7), (prop_oneof![8 => 1.0f64..1e6, 1 => 0.001f64..1.0, 1 => 1e6f64..1e11, 1 => -1e6f64..-1.0], option::weighted(0.5, 20.0f64..150.0)), option::weighted(0.4, -4000i32..0), prop_oneof![9 => 0i32..6, 1 => 6i32..60]),
        |((cs, mat), conv, (face, red), issue, settle): &((CalSpec, i32), Option<u8>, (f64, Option<f64>), Option<i32>, i32), cx| {
            let (cal, cm) = cs.build();
            let plain = conv.is_none() && red.is_none() && issue.is_none();
            let z = if plain {
                ZeroCouponBond::new(*settle, &cal, *face, date(*mat))
            } else {
                ZeroCouponBond::new_with_options(*settle, &cal, *face, date(*mat), conv.map(|k| CONV[k as usize]), *red, issue.map(|o| date(mat + o)))
            };
            let pay = cm.adjust(*mat, CONV[conv.unwrap_or(0) as usize]);
            cx.nontrivial_if(pay != *mat);
            let amount = face * red.unwrap_or(100.0) / 100.0;
            ensure_eq!(z.cashflows().len(), 1, "number of cash flows");
            let f = &z.cashflows()[0];
            ensure!(f.date() == date(pay) && close(f.amount(), amount, 1e-12), "pays {} on {:?}, expected {amount} on {}", f.amount(), f.date(), show(pay));
            ensure!(z.redemptions.len() == 1 && z.redemptions[0].date() == date(pay) && close(z.redemptions[0].amount(), amount, 1e-12), "redemption");
            ensure_eq!(z.maturity_date(), date(*mat), "maturity");
            ensure_eq!(z.issue_date(), issue.map_or(null(), |o| date(mat + o)), "issue date");
            ensure_eq!(*z.notional_schedule(), vec![null(), date(pay)], "notional schedule");
            ensure!(z.notionals()[..] == [*face, 0.0], "notionals {:?}", z.notionals());
            ensure!(z.face_amount == *face && z.redemption == red.unwrap_or(100.0) && z.settlement_days() == *settle, "face, redemption or settlement days");
            let (y, mo, d) = ymd(*mat);
            ensure_eq!(format!("{z:?}"), format!("ZCB/{y}-{mo:02}-{d:02}"), "printed form");
            Ok(())
        },
    );
}

/// prices and yields of any bond against flows in model form
fn prices(bond: &dyn Bond, flows: &[Flow], face: f64, accrued: f64, disc: &Disc, term: i32, d: i32, cx: &Cx) -> Res {
    let Some(p) = pv(flows, disc, term, false, d, d) else { return Ok(()) };
    let (dc, c, f) = (ldc(disc.1, term), comp(disc.0 .1), FREQS[disc.0 .2].0);
    let y = disc.0 .0;
    let what = || format!("settling {} at a yield of {y}", show(d));
    let dirty = match quiet(|| bond.dirty_price_from_yield(y, dc.clone(), c.clone(), f, date(d))) {
        Ok(x) => x,
        Err(e) => {
            ensure!(p.mint > 0.0 && p.mint < 1e-9, "dirty price {}: {e}", what());
            return Ok(());
        }
    };
    let want = p.npv * 100.0 / face;
    let size = (p.size * 100.0 / face).abs();
    ensure!((dirty - want).abs() <= 1e-9 * (size + 1.0), "dirty price {}: {dirty}, expected {want}", what());
    let clean = call("clean price", || bond.clean_price_from_yield(y, dc.clone(), c.clone(), f, date(d)))?;
    ensure!((clean - (want - accrued)).abs() <= 1e-9 * (size + 1.0), "clean price {}: {clean}, expected {want} less {accrued}", what());
    cx.inner(2);
    cx.nontrivial_if(p.steps.len() > 1);
    cx.label("priced");
    Ok(())
}

/// a yield from a clean price: default options or (accuracy, guess), the yield to find
type Ask = (Option<(f64, f64)>, f64);

fn arb_ask() -> impl Strategy<Value = Ask> + Clone {
    (option::weighted(0.5, ((-10.0f64..-6.0).prop_map(|e| 10f64.powf(e)), 0.01f64..0.2)), 0.001f64..0.25)
}

fn yields(bond: &dyn Bond, flows: &[Flow], face: f64, accrued: f64, disc: &Disc, term: i32, d: i32, (opts, y): &Ask, cx: &Cx) -> Res {
    let disc = ((*y, disc.0 .1, disc.0 .2), disc.1);
    let Some(p) = pv(flows, &disc, term, false, d, d) else { return Ok(()) };
    let total: f64 = p.steps.iter().map(|s| s.1).sum();
    let steps = p.steps.iter().map(|s| s.1).fold(0.0f64, f64::max);
    // see F05: prices below one with NewtonSafe are a known finding; simple interest over long steps may have no unique yield
    if total < 0.02 || p.mint < 0.0 || p.npv < 1.0 || (disc.0 .1 != 1 && disc.0 .1 != 2 && steps > 3.0) {
        return Ok(());
    }
    // flows of both signs may have several yields
    if p.steps.iter().any(|s| s.0 < 0.0) {
        return Ok(());
    }
    // a price that hardly depends on the yield (all but nothing of it discounted) does not determine one
    if p.slope < 1e-5 * p.gross {
        return Ok(());
    }
    let (dc, c, f) = (ldc(disc.1, term), comp(disc.0 .1), FREQS[disc.0 .2].0);
    let clean = p.npv * 100.0 / face - accrued;
    let acc = opts.map_or(1e-8, |o| o.0);
    let got = match opts {
        None => quiet(|| bond.bond_yield(clean, dc.clone(), c.clone(), f, date(d))),
        Some((a, g)) => quiet(|| bond.bond_yield_with_options(clean, dc.clone(), c.clone(), f, date(d), Some(*a), Some(200), Some(*g))),
    };
    if got.as_ref().is_err_and(|_| p.mint > 0.0 && p.mint < 1e-9) {
        return Ok(());
    }
    let got = got.map_err(|e| format!("yield of a clean price of {clean} settling {}: {e}", show(d)))?;
    // the price's own rounding, relative to its slope
    let noise = 1e-13 * (p.size + accrued.abs() * face / 100.0 + 1.0) / (p.npv * total.min(1.0));
    ensure!((got - y).abs() <= 2.0 * acc + 1e-11 + 100.0 * noise + 2e-12 * p.gross / p.slope, "yield {got} found for the clean price {clean} settling {} of a yield of {y} (accuracy {acc:e})", show(d));
    cx.label("yield solved for");
    cx.label_if(disc.0 .1 > 2, "mixed compounding");
    cx.inner(1);
    Ok(())
}

pub fn b02(s: &mut Session) {
    s.rule(
        "A case is a bond as for B01 with settlement dates at, beside and between its dates, a discounting \
         convention and a yield to find; non-trivial with two or more flows left. Accrued amounts, dirty and \
         clean prices are compared with the model of F02 and F04 per 100 of notional; yields are solved for from the model's \
         clean price and must come back within the accuracy. Redeemed bonds must refuse prices and yields.",
    );
    s.assume("Yields are solved for where a price is at least 1, depends on the yield and more than a week of flows is left.");
    s.check(
        "prices",
        5_000,
        150_000,
        || (arb_bond(), arb_disc(), prop::collection::vec(arb_when(), 1..4), arb_ask()),
        |(b, disc, ws, ask): &(BondSpec, Disc, Vec<When>, Ask), cx| {
            let Some(m) = b.model() else { return Ok(()) };
            let term = b.leg.term();
            let bond = call("building the bond", || b.build(&m))?;
            for w in ws {
                let d = when(&m.cpn, w);
                if d >= m.end {
                    cx.label("redeemed");
                    let (dc, c, f) = (ldc(disc.1, term), comp(disc.0 .1), FREQS[disc.0 .2].0);
                    ensure!(!bond.is_tradeable(date(d)) && bond.accrued_amount(date(d)) == 0.0, "tradeable or accruing at {} after redemption", show(d));
                    ensure!(quiet(|| bond.dirty_price_from_yield(0.05, dc.clone(), c.clone(), f, date(d))).is_err(), "a dirty price at {} after redemption", show(d));
                    ensure!(quiet(|| bond.clean_price_from_yield(0.05, dc.clone(), c.clone(), f, date(d))).is_err(), "a clean price at {} after redemption", show(d));
                    ensure!(quiet(|| bond.bond_yield(100.0, dc.clone(), c.clone(), f, date(d))).is_err(), "a yield at {} after redemption", show(d));
                    continue;
                }
                ensure!(bond.is_tradeable(date(d)), "not tradeable at {}", show(d));
                let Some(acc) = m.accrued(d) else { continue };
                let g = call("accrued amount", || bond.accrued_amount(date(d)))?;
                ensure!((g - acc).abs() <= 1e-9 * (1.0 + acc.abs()), "accrued amount at {}: {g}, expected {acc}", show(d));
                cx.label_if(acc < 0.0, "negative accrued amount");
                prices(&bond, &m.flows, m.face, acc, disc, term, d, cx)?;
                yields(&bond, &m.flows, m.face, acc, disc, term, d, ask, cx)?;
            }
            Ok(())
        },
    );
    s.check(
        "face",
        2_000,
        40_000,
        || (arb_bond(), arb_disc(), arb_when(), 0.1f64..50.0),
        |(b, disc, w, k): &(BondSpec, Disc, When, f64), cx| {
            // prices are per 100 of notional: they do not depend on the face
            let Some(m) = b.model() else { return Ok(()) };
            let d = when(&m.cpn, w);
            if d >= m.end {
                return Ok(());
            }
            let mut b2 = b.clone();
            b2.leg.notionals[0] *= k;
            let Some(m2) = b2.model() else { return Ok(()) };
            let term = b.leg.term();
            let (x, z) = (b.build(&m), b2.build(&m2));
            let (dc, c, f) = (ldc(disc.1, term), comp(disc.0 .1), FREQS[disc.0 .2].0);
            let y = disc.0 .0;
            let price = |b: &FixedRateBond| quiet(|| (b.clean_price_from_yield(y, dc.clone(), c.clone(), f, date(d)), b.accrued_amount(date(d))));
            let (Ok(p), Ok(q)) = (price(&x), price(&z)) else { return Ok(()) };
            if !p.0.is_finite() || p.0.abs() > 1e8 {
                return Ok(());
            }
            cx.nontrivial();
            let size = pv(&m.flows, disc, term, false, d, d).map_or(1e3, |v| (v.size * 100.0 / m.face).abs());
            ensure!((p.0 - q.0).abs() <= 1e-9 * (1.0 + size) && (p.1 - q.1).abs() <= 1e-9 * (1.0 + p.1.abs()), "clean price and accrued amount {p:?} for a face of {}, {q:?} for {k} times that", m.face);
            Ok(())
        },
    );
    s.check(
        "redemption_yield",
        2_000,
        40_000,
        || (arb_bond(), arb_disc(), arb_when(), 0u8..2, 0.01f64..0.2),
        |(b, disc, w, solver, y): &(BondSpec, Disc, When, u8, f64), cx| {
            // the bond's yield is the yield of its flows at the dirty price, whatever the solver
            let Some(m) = b.model() else { return Ok(()) };
            let d = when(&m.cpn, w);
            let term = b.leg.term();
            let disc = ((*y, disc.0 .1, disc.0 .2), disc.1);
            let Some(p) = pv(&m.flows, &disc, term, false, d, d) else { return Ok(()) };
            let total: f64 = p.steps.iter().map(|s| s.1).sum();
            let steps = p.steps.iter().map(|s| s.1).fold(0.0f64, f64::max);
            if d >= m.end || p.mint < 0.0 || total < 0.05 || p.npv < 1.0 || p.slope < 1e-5 * p.gross || steps > 3.0 || p.steps.iter().any(|s| s.0 < 0.0) {
                return Ok(());
            }
            let Some(acc) = m.accrued(d) else { return Ok(()) };
            let bond = b.build(&m);
            let (dc, c, f) = (ldc(disc.1, term), comp(disc.0 .1), FREQS[disc.0 .2].0);
            cx.nontrivial();
            let one = quiet(|| bond.bond_yield(p.npv * 100.0 / m.face - acc, dc.clone(), c.clone(), f, date(d)));
            if one.as_ref().is_err_and(|_| p.mint > 0.0 && p.mint < 1e-9) {
                return Ok(());
            }
            let one = one.map_err(|e| format!("bond yield: {e}"))?;
            let two = call("yield of the flows", || match solver {
                0 => cashflow::bond_yield(&Brent::default(), bond.cashflows(), p.npv, dc.clone(), c.clone(), f, false, date(d), date(d), 1e-9, 0.05),
                _ => cashflow::bond_yield(&FiniteDifferenceNewtonSafe::default(), bond.cashflows(), p.npv, dc.clone(), c.clone(), f, false, date(d), date(d), 1e-9, 0.05),
            })?;
            ensure!((one - two).abs() <= 1e-7, "the bond yields {one}, its flows {two}");
            Ok(())
        },
    );
}

pub fn b03(s: &mut Session) {
    s.rule(
        "A case is a zero coupon bond with its calendar, conventions, redemption and face, a settlement date \
         and a discounting convention; non-trivial when settled before redemption. Prices and yields are compared with a single \
         discounted payment, the discount-yield price with 100 - 100 y days/360 and the period with days/30 \
         rounded.",
    );
    s.check(
        "zero_coupon",
        5_000,
        150_000,
        || {
            (
                (arb_cal(prop_oneof![8 => arb_date(y0(1975), y1(2120)), 1 => arb_date(y0(2120), y1(2190))]), option::weighted(0.6, 0u8..7), (prop_oneof![4 => Just(100.0f64), 8 => 5.0f64..1e6, 1 => 0.001f64..5.0, 1 => 1e6f64..1e11, 1 => -1e6f64..-1.0], option::weighted(0.5, 20.0f64..150.0))),
                arb_disc(),
                prop_oneof![1 => -3i32..4, 6 => 1i32..1000, 3 => 1000i32..12_000],
                arb_ask(),
                -0.02f64..0.3,
            )
        },
        |(((cs, mat), conv, (face, red)), disc, off, ask, dy): &(((CalSpec, i32), Option<u8>, (f64, Option<f64>)), Disc, i32, Ask, f64), cx| {
            let (cal, cm) = cs.build();
            let z = ZeroCouponBond::new_with_options(1, &cal, *face, date(*mat), conv.map(|k| CONV[k as usize]), *red, None);
            let pay = cm.adjust(*mat, CONV[conv.unwrap_or(0) as usize]);
            let d = mat - off;
            let flows = [Flow::P(pay, face * red.unwrap_or(100.0) / 100.0)];
            ensure_eq!(z.is_tradeable(date(d)), d < pay, "tradeable at {}", show(d));
            ensure!(call("accrued", || z.accrued_amount(date(d)))? == 0.0, "a zero coupon bond accrues");
            let want = 100.0 - 100.0 * dy * f64::from(*off) / 360.0;
            ensure!(close(call("discount price", || z.price_from_discount_yield(*dy, date(d)))?, want, 1e-12), "price at a discount yield of {dy} over {off} days");
            let months = (2 * off.abs() + 30) / 60 * off.signum();
            ensure_eq!(call("period", || z.period(date(d)))?, Period::new(months, TimeUnit::Months), "period of {off} days");
            if d >= pay {
                let (dc, c, f) = (ldc(disc.1, pay), comp(disc.0 .1), FREQS[disc.0 .2].0);
                ensure!(quiet(|| z.dirty_price_from_yield(0.05, dc.clone(), c.clone(), f, date(d))).is_err(), "a price at {} after redemption", show(d));
                ensure!(quiet(|| z.bond_yield(100.0, dc.clone(), c.clone(), f, date(d))).is_err(), "a yield at {} after redemption", show(d));
                return Ok(());
            }
            cx.nontrivial();
            prices(&z, &flows, *face, 0.0, disc, pay, d, cx)?;
            yields(&z, &flows, *face, 0.0, disc, pay, d, ask, cx)
        },
    );
}

pub fn b04(s: &mut Session) {
    s.rule(
        "A case is a bond as for B01 and dates around its issue, payment and redemption dates; non-trivial \
         when the settlement date is moved by a holiday or the issue date, or the notional changes. Settlement dates are compared with the calendar \
         model, notionals with a step function of the date.",
    );
    s.check("fixed_rate", 4_000, 120_000, || (arb_bond(), prop::collection::vec((arb_when(), -6i32..7, 0u8..3), 1..6)), |(b, ws): &(BondSpec, Vec<(When, i32, u8)>), cx| {
        let Some(m) = b.model() else { return Ok(()) };
        let bond = call("building the bond", || b.build(&m))?;
        let cm = b.leg.paycal().build().1;
        for (w, off, at) in ws {
            let d = match at {
                0 => when(&m.cpn, w),
                1 => m.issue.unwrap_or(m.end) + off,
                _ => m.end + off,
            };
            let plain = cm.advance(d, b.settle, 0, CONV[0], false);
            let want = m.issue.map_or(plain, |i| i.max(plain));
            cx.nontrivial_if(plain != d + b.settle || want != plain || (d - m.end).abs() <= 1);
            ensure_eq!(call("settlement date", || bond.settlement_date(date(d)))?, date(want), "settlement of a trade on {} (T+{}, issue {:?})", show(d), b.settle, m.issue.map(show));
            let n = if d < m.end { m.face } else { 0.0 };
            ensure!(call("notional", || bond.notional(date(d)))? == n, "notional at {} is {} (face {}, redeemed {})", show(d), bond.notional(date(d)), m.face, show(m.end));
            ensure_eq!(bond.is_tradeable(date(d)), d < m.end, "tradeable at {}", show(d));
            if want >= m.end && d >= m.end {
                // nothing is left to price
                for at in [d, want] {
                    ensure_eq!(quiet(|| bond.dirty_price(date(d), date(at))), Ok(0.0), "dirty price on {} of a bond redeemed {}", show(d), show(m.end));
                }
            }
        }
        Ok(())
    });
    s.check(
        "zero_coupon",
        3_000,
        80_000,
        || (arb_cal(prop_oneof![8 => arb_date(y0(1970), y1(2120)), 1 => arb_date(y0(2120), y1(2190))]), option::weighted(0.6, 0u8..7), prop_oneof![8 => 1.0f64..1e6, 1 => 0.001f64..1.0, 1 => 1e6f64..1e11, 1 => -1e6f64..-1.0], option::weighted(0.6, -40i32..0), (prop_oneof![9 => 0i32..8, 1 => 8i32..60], -50i32..12)),
        |((cs, mat), conv, face, issue, (settle, off)): &((CalSpec, i32), Option<u8>, f64, Option<i32>, (i32, i32)), cx| {
            let (cal, cm) = cs.build();
            let z = ZeroCouponBond::new_with_options(*settle, &cal, *face, date(*mat), conv.map(|k| CONV[k as usize]), None, issue.map(|o| date(mat + o)));
            let pay = cm.adjust(*mat, CONV[conv.unwrap_or(0) as usize]);
            let d = mat + off;
            let plain = cm.advance(d, *settle, 0, CONV[0], false);
            let want = issue.map_or(plain, |o| (mat + o).max(plain));
            cx.nontrivial_if(plain != d + settle || want != plain || (d - pay).abs() <= 1);
            ensure_eq!(call("settlement date", || z.settlement_date(date(d)))?, date(want), "settlement of a trade on {} (T+{settle})", show(d));
            ensure!(call("notional", || z.notional(date(d)))? == if d < pay { *face } else { 0.0 }, "notional at {} (redeemed {})", show(d), show(pay));
            ensure_eq!(z.is_tradeable(date(d)), d < pay, "tradeable at {}", show(d));
            Ok(())
        },
    );
}
