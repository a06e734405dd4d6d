//! K01, K02: currencies, money, quotes and stocks.
use crate::engine::*;
use proptest::prelude::*;
use rust_quantlib::currencies::currency::Currency;
use rust_quantlib::currencies::money::Money;
use rust_quantlib::currencies::{africa::*, america::*, asia::*, europe::*, oceania::*};
use rust_quantlib::instruments::instrument::Instrument;
use rust_quantlib::instruments::stock::Stock;
use rust_quantlib::quotes::quote::Quote;
use rust_quantlib::quotes::simplequote::SimpleQuote;
use std::rc::Rc;
use std::sync::Arc;

/// (constructor, ISO 4217 code, ISO 4217 numeric code)
type Row = (fn() -> Rc<dyn Currency>, &'static str, i32, fn() -> Rc<dyn Currency>);
macro_rules! row {
    ($t:ident, $c:expr, $n:expr) => {
        ((|| Rc::new($t::new()) as Rc<dyn Currency>) as fn() -> Rc<dyn Currency>, $c, $n, (|| Rc::new($t::default()) as Rc<dyn Currency>) as fn() -> Rc<dyn Currency>)
    };
}
/// CNH is not an ISO code; the library gives it the yuan's number
const TABLE: [Row; 17] = [
    row!(ZARCurrency, "ZAR", 710),
    row!(CADCurrency, "CAD", 124),
    row!(USDCurrency, "USD", 840),
    row!(CNYCurrency, "CNY", 156),
    row!(HKDCurrency, "HKD", 344),
    row!(JPYCurrency, "JPY", 392),
    row!(KRWCurrency, "KRW", 410),
    row!(SARCurrency, "SAR", 682),
    row!(SGDCurrency, "SGD", 702),
    row!(CNHCurrency, "CNH", 156),
    row!(CHFCurrency, "CHF", 756),
    row!(EURCurrency, "EUR", 978),
    row!(GBPCurrency, "GBP", 826),
    row!(NOKCurrency, "NOK", 578),
    row!(SEKCurrency, "SEK", 752),
    row!(AUDCurrency, "AUD", 36),
    row!(NZDCurrency, "NZD", 554),
];

pub fn k01(s: &mut Session) {
    s.rule(
        "Every pair of the 17 currencies is enumerated (codes, numbers, units, identity), and amounts from \
         -1e6 to 1e6 are rounded in each: to the nearest cent in euro, untouched otherwise. All cases are \
         non-trivial.",
    );
    s.exhaust("pairs", (0..17 * 17).collect::<Vec<usize>>(), |&k, cx| {
        cx.nontrivial();
        let ((f, code, num, plain), (g, code2, ..)) = (TABLE[k / 17], TABLE[k % 17]);
        let (a, b) = (f(), g());
        ensure!(a.code() == code && a.data().code == code, "code {} instead of {code}", a.code());
        ensure_eq!(a.numeric_code(), num, "numeric code of {code}");
        ensure_eq!(a.fractions_per_unit(), 100, "fractions per unit of {code}");
        ensure!(!a.name().is_empty() && !a.symbol().is_empty(), "{code} has no name or symbol");
        ensure!(a.fraction_symbol() == a.data().fraction_symbol && a.name() == a.data().name && a.symbol() == a.data().symbol, "{code}: the name or a symbol is not the one of its data");
        let p = plain();
        ensure!(p.data() == a.data() && p.code() == code && p.numeric_code() == num, "the default {code} is {:?}", p.data());
        ensure!(b.code() == code2 && b.numeric_code() == TABLE[k % 17].2, "{code2} after {code}");
        ensure!(a.triangulation_currency().is_none() && a.minor_unit_codes().is_empty(), "{code}: triangulation or minor units");
        ensure_eq!(format!("{:?}", a.data()), code.to_string(), "printed form of {code}");
        ensure!((a.data() == b.data()) == (code == code2), "{code} and {code2} compare wrongly");
        Ok(())
    });
    s.check("rounding", 4_000, 100_000, || (0usize..17, -100_000_000i64..100_000_000, 1u32..499, any::<bool>()), |&(k, cents, frac, up), cx| {
        // cents and a fraction of a cent that stays away from the half
        cx.nontrivial();
        let (f, code, ..) = TABLE[k];
        let c = f();
        let x = if up { cents as f64 + 1.0 - f64::from(frac) / 1000.0 } else { cents as f64 + f64::from(frac) / 1000.0 } / 100.0;
        let want = if code == "EUR" { (cents + i64::from(up)) as f64 / 100.0 } else { x };
        let got = c.rounding().round(x);
        ensure!((got - want).abs() <= 1e-9 * (1.0 + want.abs()), "{x} {code} rounds to {got}, expected {want}");
        let m = Money::new(c.clone(), x);
        ensure!(m.value == x && m.currency.code() == code, "money of {x} {code} is {m:?}");
        ensure!(m.clone().value == x, "money does not survive copying");
        Ok(())
    });
}

pub fn k02(s: &mut Session) {
    s.rule("A case is a quoted value (of any magnitude and sign, not-a-number excluded); all are non-trivial. Quotes and stocks on shared quotes must report it.");
    s.check("stock", 4_000, 100_000, || prop_oneof![proptest::num::f64::POSITIVE | proptest::num::f64::NEGATIVE | proptest::num::f64::NORMAL | proptest::num::f64::ZERO | proptest::num::f64::SUBNORMAL, -1000.0f64..1000.0], |&x: &f64, cx| {
        cx.nontrivial();
        let q = Arc::new(SimpleQuote::new(x));
        ensure!(q.value() == x && q.is_valid(), "quote of {x} reports {}", q.value());
        let (a, b) = (Stock::new(q.clone()), Stock::new(q.clone()));
        for s in [&a, &b, &a] {
            let r = s.calculate();
            ensure!(s.npv() == x && r.npv == x, "stock on {x} is worth {} ({})", s.npv(), r.npv);
            ensure!(r.error_estimate == 0.0, "stock on {x} has an error estimate");
        }
        ensure!(SimpleQuote::default().value() == 0.0, "a default quote is not zero");
        Ok(())
    });
}
