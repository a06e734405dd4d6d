//! M01-M06: rounding, solvers, interpolation, arrays, search and comparison helpers; T01: term structures.
use crate::engine::*;
use crate::p_dc::close as near;
use crate::p_dc::{counter, nul};
use proptest::prelude::*;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::frequency::Frequency;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit;
use rust_quantlib::maths::array::Array;
use rust_quantlib::maths::bounds::{lower_bound, upper_bound};
use rust_quantlib::maths::comparison::{close, close_enough, close_n};
use rust_quantlib::maths::interpolations::interpolation::Interpolation;
use rust_quantlib::maths::interpolations::lagrangeinterpolation::LagrangeInterpolation;
use rust_quantlib::maths::interpolations::linearinterpolation::LinearInterpolation;
use rust_quantlib::maths::rounding::Rounding;
use rust_quantlib::maths::solvers1d::brent::Brent;
use rust_quantlib::maths::solvers1d::finitedifferencenewtonsafe::FiniteDifferenceNewtonSafe;
use rust_quantlib::maths::solvers1d::newtonsafe::NewtonSafe;
use rust_quantlib::maths::solvers1d::solver1d::Solver1D;
use rust_quantlib::rates::compounding::Compounding;
use rust_quantlib::rates::interestrate::InterestRate;
use rust_quantlib::termstructures::termstructure::TermStructure;
use rust_quantlib::termstructures::yieldtermstructure::YieldTermStructure;
use rust_quantlib::termstructures::zeroyieldstructure::ZeroYieldStructure;
use std::cell::{Cell, RefCell};

const EPS: f64 = f64::EPSILON;

// ------------------------------------------------------------------------------------ M01

/// kind 0 none, 1 up, 2 down, 3 closest, 4 ceiling, 5 floor
fn rounding(kind: u8, p: i32, d: i32) -> Rounding {
    match kind {
        0 => Rounding::none(),
        1 => Rounding::up(p, d),
        2 => Rounding::down(p, d),
        3 => Rounding::closest(p, d),
        4 => Rounding::ceiling(p, d),
        _ => Rounding::floor(p, d),
    }
}

/// (kind, negative, units, thousandths of a unit, precision, digit)
type RCase = (u8, bool, u32, u16, i32, i32);

pub fn m01(s: &mut Session) {
    s.rule(
        "A case is a rounding kind, a sign, a whole number of units of the last kept place, a \
         fraction of a unit in thousandths that stays away from the deciding digit and from zero \
         (exact halves and whole numbers are generated with precision 0, where they are \
         representable), a precision from -12 to 15 (mostly -3 to 9) and a digit from 1 to 9; it is non-trivial when \
         the fraction is not zero. The expected unit count is decided in integers. Fractions too small \
         for any digit and numbers too large for any fraction are rounded too, at every scale.",
    );
    s.check(
        "decimal",
        40_000,
        1_000_000,
        || {
            (0u8..6, any::<bool>(), prop_oneof![0u32..30, 0u32..100_000_000], 1u16..1000, prop_oneof![9 => -3i32..10, 1 => -12i32..16], 1i32..10)
                .prop_map(|(k, n, u, f, p, d): RCase| {
                    let f = if i32::from(f) == d * 100 { f + 1 } else { f };
                    (k, n, u, f, p, d)
                })
        },
        |&(kind, neg, units, f, p, d): &RCase, cx| {
            // keep the value's own representation error far below a thousandth of a unit
            let text = format!("{}{}.{:03}e{}", if neg { "-" } else { "" }, units, f, -p);
            let v: f64 = text.parse().unwrap();
            let got = call("round", || rounding(kind, p, d).round(v))?;
            cx.nontrivial_if(kind != 0);
            if kind == 0 {
                ensure!(got == v, "no rounding of {v} gives {got}");
                return Ok(());
            }
            let over = i64::from(f) > i64::from(d) * 100;
            let away = match kind {
                1 => true,
                2 => false,
                3 => over,
                4 => over && neg,
                _ => over && !neg,
            };
            cx.label_if(away, "away from zero");
            cx.label_if(!away, "towards zero");
            let n = u64::from(units) + u64::from(away);
            let want: f64 = format!("{}{}e{}", if neg { "-" } else { "" }, n, -p).parse().unwrap();
            ensure!(near(got, want, 1e-13), "kind {kind} precision {p} digit {d}: {v} rounds to {got}, expected {want}");
            // a rounded value has no digits beyond the precision
            let again = call("round", || rounding(2, p, 5).round(got * (1.0 + 1e-13)))?;
            ensure!(near(again, want, 1e-12), "{got} is not a multiple of 1e{}", -p);
            Ok(())
        },
    );
    // values exactly representable: whole numbers stay, exact halves go away from zero at digit 5
    s.check(
        "exact",
        20_000,
        400_000,
        || (0u8..6, any::<bool>(), prop_oneof![4 => 0u64..100_000_000, 1 => 0u64..1 << 49], 0u16..8, 1i32..10),
        |&(kind, neg, units, eighths, d): &(u8, bool, u64, u16, i32), cx| {
            let sg = if neg { -1.0 } else { 1.0 };
            let units = units as f64; // below 2^49: exact, with its eighths
            let v = sg * (units + f64::from(eighths) / 8.0);
            let got = call("round", || rounding(kind, 0, d).round(v))?;
            cx.nontrivial();
            // eighths/8 >= d/10  <=>  10*eighths >= 8*d
            let over = 10 * i32::from(eighths) >= 8 * d;
            let away = match kind {
                1 => eighths != 0,
                3 => over,
                4 => over && neg && v != 0.0,
                5 => over && !neg,
                _ => false,
            };
            let want = if kind == 0 { v } else { sg * (units + f64::from(u8::from(away))) };
            ensure!(got == want, "kind {kind} precision 0 digit {d}: {v} rounds to {got}, expected {want}");
            Ok(())
        },
    );
    // values of too many units to have a fraction stay as they are
    s.check(
        "huge",
        5_000,
        100_000,
        || (0u8..6, any::<bool>(), (1u32..1_000_000, 17i32..280), prop_oneof![9 => -3i32..10, 1 => -12i32..16], 1i32..10),
        |&(kind, neg, (m, e), p, d): &(u8, bool, (u32, i32), i32, i32), cx| {
            let v: f64 = format!("{}{m}e{}", if neg { "-" } else { "" }, e - p).parse().unwrap();
            cx.nontrivial_if(kind > 0);
            let got = call("round", || rounding(kind, p, d).round(v))?;
            ensure!(near(got, v, 1e-13), "kind {kind} precision {p} digit {d}: {v:e} rounds to {got:e}");
            Ok(())
        },
    );
    // fractions of any size above the subnormal numbers
    s.check(
        "tiny",
        5_000,
        100_000,
        || (0u8..6, any::<bool>(), (1u32..10_000, 6i32..295), -3i32..10, 1i32..10),
        |&(kind, neg, (m, e), p, d): &(u8, bool, (u32, i32), i32, i32), cx| {
            let v: f64 = format!("{}{m}e{}", if neg { "-" } else { "" }, -e - p).parse().unwrap();
            // less than a tenth of a unit, whatever the digit
            cx.nontrivial_if(kind == 1);
            let got = call("round", || rounding(kind, p, d).round(v))?;
            let want: f64 = match kind {
                0 => v,
                1 => format!("{}1e{}", if neg { "-" } else { "" }, -p).parse().unwrap(),
                _ => 0.0,
            };
            ensure!(near(got, want, 1e-13), "kind {kind} precision {p} digit {d}: {v:e} rounds to {got:e}, expected {want:e}");
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------ M02

#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
pub struct Fun {
    family: u8,
    /// the root
    r: f64,
    a: f64,
    b: f64,
    /// overall factor, sign included
    s: f64,
}

impl Fun {
    fn v(&self, x: f64) -> f64 {
        let e = x - self.r;
        self.s
            * match self.family {
                0 => e + self.b * ((self.a * x).sin() - (self.a * self.r).sin()) / self.a,
                1 => (self.a * e).exp_m1(),
                2 => e * e * e + self.a * e,
                3 => (self.a * e).atan(),
                4 => e,
                // level beyond a distance from the root
                _ => e.clamp(-self.level(), self.level()),
            }
    }
    fn d(&self, x: f64) -> f64 {
        let e = x - self.r;
        self.s
            * match self.family {
                0 => 1.0 + self.b * (self.a * x).cos(),
                1 => self.a * (self.a * e).exp(),
                2 => 3.0 * e * e + self.a,
                3 => self.a / (1.0 + (self.a * e) * (self.a * e)),
                4 => 1.0,
                _ => f64::from(u8::from(e.abs() < self.level())),
            }
    }
    /// an accuracy attainable beside the root
    fn fit(&self, acc: f64) -> f64 {
        acc.max(1e-12 * self.r.abs())
    }
    /// wider than any accuracy asked for
    fn level(&self) -> f64 {
        self.a + 0.1
    }
    /// ratio of the largest to the smallest slope on [lo, hi] (which holds the root)
    fn kappa(&self, lo: f64, hi: f64) -> f64 {
        let (l, h) = ((self.r - lo).max(0.0), (hi - self.r).max(0.0));
        let m = l.max(h);
        match self.family {
            0 => (1.0 + self.b.abs()) / (1.0 - self.b.abs()),
            1 => (self.a * (l + h)).exp(),
            2 => (3.0 * m * m + self.a) / self.a,
            3 => 1.0 + (self.a * m) * (self.a * m),
            _ => 1.0,
        }
    }
}

fn arb_fun() -> impl Strategy<Value = Fun> {
    (0u8..6, prop_oneof![6 => -20.0f64..20.0, 1 => (-20i32..21).prop_map(f64::from), 1 => -1e6f64..1e6], 0.1f64..3.0, -0.9f64..0.9, (prop_oneof![0.01f64..100.0, -100.0f64..-0.01], prop_oneof![8 => Just(0i32), 1 => -8i32..9]).prop_map(|(s, e)| s * 10f64.powi(e)))
        .prop_map(|(family, r, a, b, s)| Fun { family, r, a, b, s })
}

/// lb/ub enforced bounds
type Bounds = (Option<f64>, Option<f64>);

enum How {
    Search { guess: f64, step: f64 },
    Bracket { guess: f64, lo: f64, hi: f64 },
}

struct Run {
    root: f64,
    lo: f64,
    hi: f64,
}

/// Runs solver `k` (0 Brent, 1 Newton, 2 finite-difference Newton) on `fun`, recording where it looks.
fn run(k: u8, fun: &Fun, acc: f64, how: &How, b: Bounds) -> Result<Run, String> {
    let seen: RefCell<Vec<f64>> = RefCell::new(vec![]);
    let f = |x: f64| {
        seen.borrow_mut().push(x);
        fun.v(x)
    };
    let d = |x: f64| fun.d(x);
    let (lb, ub) = (b.0.unwrap_or(0.0), b.1.unwrap_or(0.0));
    let (le, ue) = (b.0.is_some(), b.1.is_some());
    let go = |s: &dyn Fn(&dyn Fn(f64) -> f64, &dyn Fn(f64) -> f64) -> f64| s(&f, &d);
    macro_rules! drive {
        ($solver:expr) => {{
            let s = $solver;
            match *how {
                How::Search { guess, step } => go(&|f, d| s.solve(f, d, acc, guess, step)),
                How::Bracket { guess, lo, hi } => go(&|f, d| s.solve_bracketed(f, d, acc, guess, lo, hi)),
            }
        }};
    }
    let plain = !le && !ue;
    let root = quiet(|| match (k, plain) {
        (0, true) => drive!(Brent::default()),
        (0, false) => drive!(Brent::new(lb, ub, le, ue)),
        (1, true) => drive!(NewtonSafe::with_max_evaluations(100)),
        (1, false) => drive!(NewtonSafe::new(lb, ub, le, ue, 100)),
        (_, true) => drive!(FiniteDifferenceNewtonSafe::default()),
        (_, false) => drive!(FiniteDifferenceNewtonSafe::new(lb, ub, le, ue)),
    })?;
    let seen = seen.into_inner();
    let lo = seen.iter().copied().fold(root, f64::min);
    let hi = seen.iter().copied().fold(root, f64::max);
    Ok(Run { root, lo, hi })
}

fn accurate(k: u8, fun: &Fun, acc: f64, r: &Run) -> Res {
    let noise = 1e-13 * (1.0 + fun.r.abs());
    // Brent stops on a bracket shorter than the accuracy; the Newton variants on a step shorter than
    // it, which bounds the error up to the ratio of slopes over the points visited
    let tol = if k == 0 { acc * 1.0001 } else { acc * fun.kappa(r.lo, r.hi) } + noise;
    ensure!(
        (r.root - fun.r).abs() <= tol,
        "solver {k}: root {} is off the true root {} by {:e}, accuracy {acc:e} (tolerance {tol:e})",
        r.root,
        fun.r,
        (r.root - fun.r).abs()
    );
    Ok(())
}

fn arb_acc() -> impl Strategy<Value = f64> {
    (2i32..=12, 1.0f64..9.9).prop_map(|(e, m)| m * 10f64.powi(-e))
}

pub fn m02(s: &mut Session) {
    s.rule(
        "A case is a monotone function with a known root from one of six families (linear with a sine \
         ripple, exponential, cubic, arctangent, linear, linear levelling off; increasing or decreasing, mostly scaled from 0.01 to \
         100), a solver, an accuracy from 1e-12 to 0.1, and a guess and step, a bracket, enforced \
         bounds or one broken argument. It is non-trivial when the solver had to iterate (the guess was \
         not the root). Each answer is compared with the known root; every point the solver looks at is \
         recorded and must respect the bracket or the enforced bounds.",
    );
    s.assume("Functions are continuous and monotone with a simple root, as the solvers require of a bracketed root.");
    s.check(
        "search",
        12_000,
        300_000,
        || (0u8..3, arb_fun(), arb_acc(), -4.0f64..4.0, 0.01f64..2.0),
        |(k, fun, acc, off, step): &(u8, Fun, f64, f64, f64), cx| {
            let acc = &fun.fit(*acc);
            let r = run(*k, fun, *acc, &How::Search { guess: fun.r + off, step: *step }, (None, None))
                .map_err(|e| format!("solver {k}: {e}"))?;
            cx.nontrivial_if(*off != 0.0);
            cx.label(["Brent", "NewtonSafe", "FiniteDifferenceNewtonSafe"][*k as usize]);
            accurate(*k, fun, *acc, &r)
        },
    );
    s.check(
        "bracket",
        12_000,
        300_000,
        || (0u8..3, arb_fun(), arb_acc(), 0.01f64..4.0, 0.01f64..4.0, 0.001f64..0.999),
        |(k, fun, acc, left, right, g): &(u8, Fun, f64, f64, f64, f64), cx| {
            let acc = &fun.fit(*acc);
            let (lo, hi) = (fun.r - left, fun.r + right);
            let guess = lo + g * (hi - lo);
            let r = run(*k, fun, *acc, &How::Bracket { guess, lo, hi }, (None, None)).map_err(|e| format!("solver {k}: {e}"))?;
            cx.nontrivial_if(guess != fun.r);
            let slack = 1e-12 * (1.0 + hi.abs().max(lo.abs()));
            ensure!(
                r.lo >= lo - slack && r.hi <= hi + slack,
                "solver {k} left the bracket [{lo}, {hi}]: looked at [{}, {}]",
                r.lo,
                r.hi
            );
            accurate(*k, fun, *acc, &r)?;
            // a root sitting on an end of the bracket is returned as it is
            for (l, h) in [(fun.r, hi), (lo, fun.r)] {
                let g2 = l + g * (h - l);
                let e = run(*k, fun, *acc, &How::Bracket { guess: g2, lo: l, hi: h }, (None, None)).map_err(|e| format!("solver {k}: {e}"))?;
                ensure!(e.root == fun.r, "solver {k}: root {} at the end of [{l}, {h}] not returned, got {}", fun.r, e.root);
            }
            Ok(())
        },
    );
    // a guess on the root, or one step away from it, is answered with the root itself
    s.check(
        "exact",
        4_000,
        100_000,
        || (0u8..3, arb_fun(), arb_acc(), 1u32..4096, any::<bool>()),
        |(k, fun, acc, step, up): &(u8, Fun, f64, u32, bool), cx| {
            let acc = &fun.fit(*acc);
            let step = f64::from(*step) / 2048.0;
            let r = run(*k, fun, *acc, &How::Search { guess: fun.r, step }, (None, None)).map_err(|e| format!("solver {k}: {e}"))?;
            ensure!(r.root == fun.r && r.lo == fun.r && r.hi == fun.r, "solver {k} started on the root {} looks at [{}, {}] and returns {}", fun.r, r.lo, r.hi, r.root);
            let guess = if *up { fun.r + step } else { fun.r - step };
            if (if *up { guess - step } else { guess + step }) != fun.r {
                return Ok(());
            }
            // the bracket is extended downwards from a positive value, upwards from a negative one
            if (fun.v(guess) > 0.0) == *up {
                cx.nontrivial();
                let r = run(*k, fun, *acc, &How::Search { guess, step }, (None, None)).map_err(|e| format!("solver {k}: {e}"))?;
                ensure!(r.root == fun.r, "solver {k} one step of {step} from the root {} returns {}", fun.r, r.root);
            }
            Ok(())
        },
    );
    s.check(
        "bounds",
        12_000,
        300_000,
        || (0u8..3, arb_fun(), arb_acc(), -3.0f64..3.0, 0.01f64..2.0, -2.0f64..4.0, -2.0f64..4.0, 0u8..3),
        |(k, fun, acc, off, step, below, above, which): &(u8, Fun, f64, f64, f64, f64, f64, u8), cx| {
            let acc = &fun.fit(*acc);
            // bounds around (or, when `below`/`above` is negative, beyond) the root
            let guess = fun.r + off;
            let lb = (*which != 1).then(|| fun.r - below);
            let ub = (*which != 0).then(|| fun.r + above);
            if lb.map_or(false, |l| l >= guess) || ub.map_or(false, |u| u <= guess) {
                return Ok(());
            }
            cx.nontrivial();
            let how = How::Search { guess, step: *step };
            let inside = lb.map_or(true, |l| l < fun.r - 1e-6) && ub.map_or(true, |u| u > fun.r + 1e-6);
            let outside = lb.map_or(false, |l| l > fun.r + 1e-6) || ub.map_or(false, |u| u < fun.r - 1e-6);
            cx.label(if inside { "root inside" } else { "root outside" });
            match run(*k, fun, *acc, &how, (lb, ub)) {
                Ok(r) => {
                    ensure!(!outside, "solver {k} returned {} although the root {} lies outside the enforced bounds {lb:?} {ub:?}", r.root, fun.r);
                    let slack = 1e-12 * (1.0 + fun.r.abs() + 10.0);
                    ensure!(
                        lb.map_or(true, |l| r.lo >= l - slack) && ub.map_or(true, |u| r.hi <= u + slack),
                        "solver {k} looked at [{}, {}], outside the enforced bounds {lb:?} {ub:?}",
                        r.lo,
                        r.hi
                    );
                    accurate(*k, fun, *acc, &r)
                }
                Err(e) => {
                    ensure!(!inside, "solver {k}: no root found inside the bounds {lb:?} {ub:?} around {}: {e}", fun.r);
                    Ok(())
                }
            }
        },
    );
    s.check(
        "rejected",
        4_000,
        60_000,
        || (0u8..3, arb_fun(), arb_acc(), 0.01f64..4.0, 0.01f64..4.0, 0.01f64..3.0, 0u8..8),
        |(k, fun, acc, left, right, extra, what): &(u8, Fun, f64, f64, f64, f64, u8), cx| {
            let (lo, hi) = (fun.r - left, fun.r + right);
            let mid = (lo + hi) / 2.0;
            let mut acc = *acc;
            let mut bounds = (None, None);
            let (how, why) = match what {
                0 => (How::Bracket { guess: mid, lo: hi, hi: lo }, "reversed bracket"),
                1 => (How::Bracket { guess: hi + extra, lo, hi }, "guess above the bracket"),
                2 => (How::Bracket { guess: lo - extra, lo, hi }, "guess below the bracket"),
                3 => (
                    How::Bracket { guess: hi + extra / 2.0, lo: hi, hi: hi + extra },
                    "no sign change over the bracket",
                ),
                4 => {
                    acc = 0.0;
                    (How::Bracket { guess: mid, lo, hi }, "zero accuracy")
                }
                5 => {
                    acc = -acc;
                    (How::Search { guess: mid, step: *extra }, "negative accuracy")
                }
                6 => {
                    bounds.0 = Some(lo + (fun.r - lo) / 2.0);
                    (How::Bracket { guess: mid, lo, hi }, "bracket below the enforced lower bound")
                }
                _ => {
                    bounds.1 = Some(hi - (hi - fun.r) / 2.0);
                    (How::Bracket { guess: mid, lo, hi }, "bracket above the enforced upper bound")
                }
            };
            cx.nontrivial();
            cx.label(why);
            match run(*k, fun, acc, &how, bounds) {
                Ok(r) => Err(format!("solver {k} accepted {why} and returned {}", r.root)),
                Err(_) => Ok(()),
            }
        },
    );
    // continuous functions in general: several sign changes, flat stretches, kinks. A bracketing solver
    // must end within the accuracy of a sign change.
    s.check(
        "kinked",
        6_000,
        150_000,
        || (prop::collection::vec((-5.0f64..5.0, 0.01f64..2.0), 2..8), arb_acc(), 0.001f64..0.999, any::<bool>()),
        |(knots, acc, g, flip): &(Vec<(f64, f64)>, f64, f64, bool), cx| {
            let mut xs = vec![];
            let mut ys = vec![];
            let mut x = 0.0;
            for (i, (y, dx)) in knots.iter().enumerate() {
                let mut y = *y;
                if i == 0 {
                    y = -(y.abs() + 0.01);
                }
                if i == knots.len() - 1 {
                    y = y.abs() + 0.01;
                }
                xs.push(x);
                ys.push(if *flip { -y } else { y });
                x += dx;
            }
            let f = |x: f64| {
                let mut i = 0;
                while i + 2 < xs.len() && x > xs[i + 1] {
                    i += 1;
                }
                let w = (x - xs[i]) / (xs[i + 1] - xs[i]);
                ys[i] * (1.0 - w) + ys[i + 1] * w
            };
            let (lo, hi) = (xs[0], xs[xs.len() - 1]);
            cx.nontrivial_if(knots.len() > 2);
            let root = call("Brent", || Brent::default().solve_bracketed(f, |_| 0.0, *acc, lo + g * (hi - lo), lo, hi))?;
            ensure!(root >= lo && root <= hi, "root {root} outside the bracket [{lo}, {hi}]");
            let t = acc * 1.001 + 1e-13 * (1.0 + root.abs());
            let (a, b) = (f((root - t).max(lo)), f((root + t).min(hi)));
            // a zero between root-t and root+t: a sign change, or a knot at or across zero within
            let crossing = a * b <= 0.0
                || f(root).abs() < 1e-25
                || xs.iter().zip(&ys).any(|(x, y)| (x - root).abs() <= t && y * a <= 0.0);
            ensure!(crossing, "no root of the function within {t:e} of {root}");
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------ M07

pub fn m07(s: &mut Session) {
    s.rule(
        "A case is a function as for M02 solved with a generous evaluation limit and again with a smaller \
         one, or a function without a root, or a jump in a bracket of up to 1e300; the evaluations are \
         counted. Non-trivial when the limit is reached. A limit that suffices must not change the answer, \
         one that does not must be answered by refusing.",
    );
    s.assume("A finite-difference step may evaluate twice; the count is judged within three evaluations, doubled for that solver.");
    s.check(
        "newton_limit",
        8_000,
        200_000,
        || (arb_fun(), arb_acc(), (0.01f64..4.0, 0.01f64..4.0, 0.001f64..0.999), 1usize..60, any::<bool>()),
        |(fun, acc, (left, right, g), limit, search): &(Fun, f64, (f64, f64, f64), usize, bool), cx| {
            let acc = &fun.fit(*acc);
            let n = Cell::new(0usize);
            let f = |x: f64| {
                n.set(n.get() + 1);
                fun.v(x)
            };
            let (lo, hi) = (fun.r - left, fun.r + right);
            let guess = lo + g * (hi - lo);
            let go = |m: usize| {
                n.set(0);
                let r = quiet(|| {
                    let s = NewtonSafe::with_max_evaluations(m);
                    if *search { s.solve(f, |x| fun.d(x), *acc, guess, 0.5) } else { s.solve_bracketed(f, |x| fun.d(x), *acc, guess, lo, hi) }
                });
                (r, n.get())
            };
            let (full, used) = go(1000);
            let full = full.map_err(|e| format!("no root in 1000 evaluations: {e}"))?;
            // the search for a bracket counts some steps twice
            let room = if *search { 2 * used } else { used };
            let (short, count) = go(*limit);
            ensure!(count <= limit + 3, "{count} evaluations with a limit of {limit}");
            cx.nontrivial_if(short.is_err());
            if *limit >= room {
                ensure_eq!(short.as_ref().ok().map(|x| x.to_bits()), Some(full.to_bits()), "answer with a limit of {limit}, {used} evaluations being enough");
            } else if *limit + 3 <= used {
                ensure!(short.is_err(), "an answer of {short:?} with a limit of {limit} evaluations where {used} are needed");
            }
            Ok(())
        },
    );
    s.check(
        "hopeless",
        6_000,
        120_000,
        || (0u8..3, any::<bool>(), -50.0f64..50.0, 0.001f64..10.0, (prop_oneof![0i32..300, 0i32..20], arb_acc(), 0.001f64..0.999), 3usize..200),
        |&(k, rootless, r, a, (e, acc, g), limit): &(u8, bool, f64, f64, (i32, f64, f64), usize), cx| {
            let n = Cell::new(0usize);
            let f = |x: f64| {
                n.set(n.get() + 1);
                // far beyond any limit: stop a solver that does not
                assert!(n.get() < 5000, "runaway");
                if rootless { a } else if x < r { -a } else { a }
            };
            let (lo, hi) = (r - 10f64.powi(e), r + 0.7 * 10f64.powi(e));
            let guess = if rootless { r } else { lo + g * (hi - lo) };
            macro_rules! drive {
                ($solver:expr) => {{
                    let s = $solver;
                    if rootless { s.solve(f, |_| 0.0, acc, guess, 0.1) } else { s.solve_bracketed(f, |_| 0.0, acc, guess, lo, hi) }
                }};
            }
            let limit = if k == 1 { limit } else { 100 };
            let got = quiet(|| match k {
                0 => drive!(Brent::default()),
                1 => drive!(NewtonSafe::with_max_evaluations(limit)),
                _ => drive!(FiniteDifferenceNewtonSafe::default()),
            });
            let n = n.get();
            let most = if k == 2 { 2 * limit + 6 } else { limit + 3 };
            ensure!(n <= most, "solver {k} made {n} evaluations, its limit is {limit}");
            cx.label(["Brent", "NewtonSafe", "FiniteDifferenceNewtonSafe"][k as usize]);
            cx.nontrivial_if(got.is_err());
            if let Ok(x) = got {
                ensure!(!rootless, "solver {k} found a root {x} of a constant {a}");
                ensure!((x - r).abs() <= 2.0 * acc + 1e-13 * (1.0 + r.abs()), "solver {k} found a root {x}, the function jumps at {r}");
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------ M03

fn nodes(start: f64, pts: &[(f64, f64)]) -> (Vec<f64>, Vec<f64>) {
    let mut x = start;
    let (mut xs, mut ys) = (vec![], vec![]);
    for (gap, y) in pts {
        xs.push(x);
        ys.push(*y);
        x += gap;
    }
    (xs, ys)
}

fn arb_pts(n: impl Into<prop::collection::SizeRange>, lo: f64, hi: f64) -> impl Strategy<Value = (f64, Vec<(f64, f64)>)> {
    (
        prop_oneof![4 => Just(0.0), 4 => -10.0f64..10.0, 1 => -1000.0f64..1000.0],
        prop::collection::vec((lo..hi, prop_oneof![1 => Just(0.0), 8 => -100.0f64..100.0]), n),
        0u8..12,
    )
        .prop_map(|(start, mut pts, kind)| {
            // whole abscissas, whole ordinates, or both
            let mut start = start;
            if kind < 2 {
                start = start.round();
                pts.iter_mut().for_each(|p| p.0 = p.0.ceil());
            }
            if kind == 1 || kind == 2 {
                pts.iter_mut().for_each(|p| p.1 = p.1.round());
            }
            (start, pts)
        })
}

/// where to look: a node, a point inside a segment, or beyond an end
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
pub enum At {
    Node(usize),
    Inside(usize, f64),
    Before(f64),
    After(f64),
}

/// Indices of nodes and segments are taken modulo their number; LAST is the last one
const LAST: usize = 1 << 20;
fn arb_at() -> impl Strategy<Value = At> {
    let at = || prop_oneof![6 => 0usize..16, 3 => 0usize..5040, 1 => Just(LAST)];
    prop_oneof![
        3 => at().prop_map(At::Node),
        6 => (at(), 0.01f64..0.99).prop_map(|(i, w)| At::Inside(i, w)),
        2 => (at(), 2i32..10, any::<bool>()).prop_map(|(i, k, up)| At::Inside(i, if up { 1.0 - 10f64.powi(-k) } else { 10f64.powi(-k) })),
        1 => (0.01f64..3.0).prop_map(At::Before),
        1 => (0.01f64..3.0).prop_map(At::After),
    ]
}

/// (x, index of the segment to its right or holding it, at a node?)
fn place(xs: &[f64], at: At) -> (f64, usize, Option<usize>) {
    let n = xs.len();
    match at {
        At::Node(i) => {
            let i = if i == LAST { n - 1 } else { i % n };
            (xs[i], i.min(n - 2), Some(i))
        }
        At::Inside(i, w) => {
            let i = if i == LAST { n - 2 } else { i % (n - 1) };
            (xs[i] + w * (xs[i + 1] - xs[i]), i, None)
        }
        At::Before(d) => (xs[0] - d, 0, None),
        At::After(d) => (xs[n - 1] + d, n - 2, None),
    }
}

fn out_of_range(at: At) -> bool {
    matches!(at, At::Before(_) | At::After(_))
}

type LinCase = (f64, Vec<(f64, f64)>, Vec<At>);

/// The segment a position is said to lie in holds it, or is the one at the end it lies beyond; the
/// range is checked as `is_in_range` says
fn located(f: &impl Interpolation, xs: &[f64], x: f64) -> Res {
    let n = xs.len();
    let i = call("locate", || f.locate(x))?;
    ensure!(i + 2 <= n, "{x} is located in segment {i} of {}", n - 1);
    ensure!((xs[i] <= x || i == 0) && (x <= xs[i + 1] || i + 2 == n), "{x} is located between {} and {}", xs[i], xs[i + 1]);
    ensure_eq!(quiet(|| f.check_range(x, false)).is_ok(), f.is_in_range(x), "range check of {x}");
    // a rounding error beyond an end is not outside
    for (end, out) in [(xs[0], -1.0), (xs[n - 1], 1.0)] {
        let near = end + out * 4.0 * EPS * end.abs();
        ensure!(f.is_in_range(near) && f.is_in_range(end), "{near:e} is out of range, the range ends at {end:e}");
        let far = end + out * (1e-9 + 1e-9 * end.abs());
        ensure!(!f.is_in_range(far), "{far:e} is in range, the range ends at {end:e}");
    }
    call("check_range", || f.check_range(x, true))
}

pub fn m03(s: &mut Session) {
    s.rule(
        "A case is 2 to 120 (mostly up to 12) strictly ascending abscissas with ordinates and a list of positions (nodes, \
         points inside segments, points beyond either end); non-trivial with three or more nodes and \
         not all ordinates equal. Value, derivative, integral and second derivative are compared with \
         the piecewise linear function computed directly; ranges, extrapolation and re-reading of \
         changed data are checked.",
    );
    s.check(
        "linear",
        10_000,
        250_000,
        || {
            let size = prop_oneof![8 => Just((0i32, 0i32)), 1 => (-6i32..7, Just(0)), 2 => (Just(0), -12i32..7)];
            (prop_oneof![12 => arb_pts(2..13, 0.01, 5.0), 1 => arb_pts(13..120, 0.01, 5.0)], prop::collection::vec(arb_at(), 1..8), size).prop_map(|((s, p), a, (x, y))| {
                let (x, y) = (10f64.powi(x), 10f64.powi(y));
                (s * x, p.iter().map(|p| (p.0 * x, p.1 * y)).collect(), a)
            })
        },
        |(start, pts, ats): &LinCase, cx| {
            let (xs, ys) = nodes(*start, pts);
            let n = xs.len();
            cx.nontrivial_if(n > 2 && ys.iter().any(|y| *y != ys[0]));
            let li = call("LinearInterpolation::new", || LinearInterpolation::new(&xs, &ys))?;
            ensure_eq!(li.xmin(), xs[0], "xmin");
            ensure_eq!(li.xmax(), xs[n - 1], "xmax");
            let scale = ys.iter().fold(1e-200f64, |m, y| m.max(y.abs()));
            let span = xs[n - 1] - xs[0] + 6.0 + xs[0].abs();
            let slope = |i: usize| (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i]);
            let maxslope = (0..n - 1).map(|i| slope(i).abs()).fold(0.0, f64::max);
            let tol = 1e-12 * (scale + maxslope * span);
            for &at in ats {
                let (x, i, node) = place(&xs, at);
                let want = ys[i] + slope(i) * (x - xs[i]);
                let ext = out_of_range(at);
                cx.inner(1);
                ensure_eq!(li.is_in_range(x), !ext, "is_in_range({x})");
                located(&li, &xs, x)?;
                if ext {
                    cx.label("extrapolated");
                    for (name, r) in [
                        ("value", quiet(|| li.value(x))),
                        ("derivative", quiet(|| li.derivative(x))),
                        ("primitive", quiet(|| li.primitive(x))),
                        ("second derivative", quiet(|| li.second_derivative(x))),
                    ] {
                        ensure!(r.is_err(), "{name} at {x}, outside [{}, {}], is allowed: {r:?}", xs[0], xs[n - 1]);
                    }
                } else {
                    let v = call("value", || li.value(x))?;
                    ensure!((v - want).abs() <= tol, "value at {x} is {v}, expected {want}");
                    let d = call("derivative", || li.derivative(x))?;
                    let dw = call("derivative_with_extrapolation", || li.derivative_with_extrapolation(x, true))?;
                    ensure!(d == dw, "derivative at {x} is {d} without and {dw} with extrapolation");
                    let p = call("primitive", || li.primitive(x))?;
                    let pw = call("primitive_with_extrapolation", || li.primitive_with_extrapolation(x, true))?;
                    ensure!(p == pw, "primitive at {x} is {p} without and {pw} with extrapolation");
                    ensure!(call("second derivative", || li.second_derivative(x))? == 0.0, "second derivative at {x} is not 0");
                }
                let v = call("value", || li.value_with_extrapolation(x, true))?;
                ensure!((v - want).abs() <= tol, "value at {x} (extrapolation allowed) is {v}, expected {want}");
                let d = call("derivative", || li.derivative_with_extrapolation(x, true))?;
                let mut ok = near(d, slope(i), 1e-12);
                if let Some(k) = node {
                    // at an inner node either one-sided derivative will do
                    cx.label("node");
                    ok |= k > 0 && k < n - 1 && near(d, slope(k - 1), 1e-12);
                }
                ensure!(ok, "derivative at {x} is {d}, expected {}", slope(i));
                let mut prim = 0.0;
                for j in 0..i {
                    prim += (xs[j + 1] - xs[j]) * (ys[j] + ys[j + 1]) / 2.0;
                }
                prim += (x - xs[i]) * (ys[i] + want) / 2.0;
                let p = call("primitive", || li.primitive_with_extrapolation(x, true))?;
                ensure!((p - prim).abs() <= tol * span, "primitive at {x} is {p}, expected {prim}");
                let sd = call("second derivative", || li.second_derivative_with_extrapolation(x, true))?;
                ensure!(sd == 0.0, "second derivative at {x} is {sd}");
            }
            // new data is picked up by update
            let ys2: Vec<f64> = ys.iter().enumerate().map(|(i, y)| 1.0 + i as f64 - y).collect();
            let mut li = li;
            li.y = &ys2;
            call("update", || li.update())?;
            let fresh = LinearInterpolation::new(&xs, &ys2);
            let xs2: Vec<f64> = xs.iter().enumerate().map(|(i, x)| 2.0 * x + 0.1 * (i * i) as f64).collect();
            let mut moved = LinearInterpolation::new(&xs, &ys);
            moved.x = &xs2;
            call("update", || moved.update())?;
            let fresh2 = LinearInterpolation::new(&xs2, &ys);
            for &at in ats {
                let (x, ..) = place(&xs2, at);
                ensure!(
                    moved.value_with_extrapolation(x, true) == fresh2.value_with_extrapolation(x, true)
                        && moved.primitive_with_extrapolation(x, true) == fresh2.primitive_with_extrapolation(x, true)
                        && moved.derivative_with_extrapolation(x, true) == fresh2.derivative_with_extrapolation(x, true),
                    "after update the interpolation at {x} does not follow the new abscissas"
                );
            }
            for &at in ats {
                let (x, ..) = place(&xs, at);
                ensure!(
                    li.value_with_extrapolation(x, true) == fresh.value_with_extrapolation(x, true)
                        && li.primitive_with_extrapolation(x, true) == fresh.primitive_with_extrapolation(x, true)
                        && li.derivative_with_extrapolation(x, true) == fresh.derivative_with_extrapolation(x, true),
                    "after update the interpolation at {x} does not follow the new data"
                );
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------ M04

pub fn m04(s: &mut Session) {
    s.rule(
        "A case is 2 to 30 (mostly up to 9) strictly ascending nodes (one of them zero in a share of the cases) with \
         ordinates, a list of positions (nodes, points inside, points just beyond the ends) and a \
         polynomial of lower degree than the number of nodes; non-trivial with three or more nodes. \
         Value and derivative are compared with the Lagrange form summed directly, the polynomial must \
         be reproduced, and ordinates must be returned exactly at the nodes.",
    );
    s.assume("Gaps between nodes differ by at most a factor of 10, so that the direct sum is well conditioned; tolerances scale with its absolute terms.");
    type Case = (f64, Vec<(f64, f64)>, Vec<At>, Vec<f64>, Option<usize>);
    s.check(
        "lagrange",
        10_000,
        250_000,
        || {
            (
                prop_oneof![9 => arb_pts(2..10, 0.2, 2.0), 1 => arb_pts(10..30, 0.2, 2.0)],
                prop::collection::vec(arb_at(), 1..8),
                prop::collection::vec(-3.0f64..3.0, 1..6),
                prop::option::of(0usize..9),
            )
                .prop_map(|((s, p), a, c, z)| (s, p, a, c, z))
        },
        |(start, pts, ats, coef, zero): &Case, cx| {
            let (mut xs, ys) = nodes(*start, pts);
            let n = xs.len();
            if let Some(z) = zero {
                let off = xs[z % n];
                xs.iter_mut().for_each(|x| *x -= off);
                cx.label("node at zero");
            }
            cx.nontrivial_if(n > 2);
            let la = call("LagrangeInterpolation::new", || LagrangeInterpolation::new(&xs, &ys))?;
            ensure_eq!(la.xmin(), xs[0], "xmin");
            ensure_eq!(la.xmax(), xs[n - 1], "xmax");
            let coef = &coef[..coef.len().min(n)];
            let mid = (xs[0] + xs[n - 1]) / 2.0;
            let poly = |x: f64| coef.iter().rev().fold(0.0, |a, c| a * (x - mid) + c);
            let pys: Vec<f64> = xs.iter().map(|x| poly(*x)).collect();
            let lp = call("LagrangeInterpolation::new", || LagrangeInterpolation::new(&xs, &pys))?;
            let basis = |x: f64, i: usize| -> f64 {
                (0..n).filter(|j| *j != i).map(|j| (x - xs[j]) / (xs[i] - xs[j])).product()
            };
            let dbasis = |x: f64, i: usize| -> f64 {
                (0..n)
                    .filter(|k| *k != i)
                    .map(|k| {
                        (0..n)
                            .filter(|j| *j != i && *j != k)
                            .map(|j| (x - xs[j]) / (xs[i] - xs[j]))
                            .product::<f64>()
                            / (xs[i] - xs[k])
                    })
                    .sum()
            };
            for &at in ats {
                let at = match at {
                    At::Before(d) => At::Before(d / 3.0),
                    At::After(d) => At::After(d / 3.0),
                    a => a,
                };
                let (x, _, node) = place(&xs, at);
                let ext = out_of_range(at);
                cx.inner(1);
                ensure_eq!(la.is_in_range(x), !ext, "is_in_range({x})");
                located(&la, &xs, x)?;
                if ext {
                    cx.label("extrapolated");
                    let r = quiet(|| la.value(x));
                    ensure!(r.is_err(), "value at {x}, outside [{}, {}], is allowed: {r:?}", xs[0], xs[n - 1]);
                    let r = quiet(|| la.derivative(x));
                    ensure!(r.is_err(), "derivative at {x}, outside [{}, {}], is allowed: {r:?}", xs[0], xs[n - 1]);
                }
                let v = call("value", || la.value_with_extrapolation(x, true))?;
                if let Some(k) = node {
                    ensure!(v == ys[k], "value at node {x} is {v}, expected {}", ys[k]);
                    cx.label("node");
                }
                if !ext {
                    let v2 = call("value", || la.value(x))?;
                    ensure!(v2 == v, "value at {x} is {v2} without and {v} with extrapolation");
                    let d = call("derivative", || la.derivative(x))?;
                    let d2 = call("derivative", || la.derivative_with_extrapolation(x, true))?;
                    ensure!(d == d2 || (d.is_nan() && d2.is_nan()), "derivative at {x} is {d} without and {d2} with extrapolation");
                }
                let want: f64 = (0..n).map(|i| ys[i] * basis(x, i)).sum();
                let size: f64 = (0..n).map(|i| (ys[i] * basis(x, i)).abs()).sum();
                // the quotient's denominator is itself a sum that cancels where many nodes are far away
                let lebesgue: f64 = (0..n).map(|i| basis(x, i).abs()).sum();
                let slack = if n < 10 { 0.0 } else { 1e-13 * lebesgue };
                ensure!((v - want).abs() <= 1e-10 * (size + 1e-3) + slack * want.abs(), "value at {x} is {v}, expected {want}");
                let p = call("value", || lp.value_with_extrapolation(x, true))?;
                let psize: f64 = (0..n).map(|i| (pys[i] * basis(x, i)).abs()).sum();
                ensure!(
                    (p - poly(x)).abs() <= 1e-9 * (psize + 1e-3) + slack * poly(x).abs(),
                    "polynomial of degree {} through {n} nodes: value at {x} is {p}, expected {}",
                    coef.len() - 1,
                    poly(x)
                );
                if lebesgue > 1e3 && n >= 10 {
                    cx.label("many nodes, too badly conditioned for a derivative");
                    continue;
                }
                let dwant: f64 = (0..n).map(|i| ys[i] * dbasis(x, i)).sum();
                let dsize: f64 = (0..n)
                    .map(|i| {
                        (0..n)
                            .filter(|k| *k != i)
                            .map(|k| {
                                (ys[i]
                                    * (0..n)
                                        .filter(|j| *j != i && *j != k)
                                        .map(|j| (x - xs[j]) / (xs[i] - xs[j]))
                                        .product::<f64>()
                                    / (xs[i] - xs[k]))
                                    .abs()
                            })
                            .sum::<f64>()
                    })
                    .sum();
                let d = call("derivative", || la.derivative_with_extrapolation(x, true))?;
                // beside a node the closed form cancels
                let gap = xs.iter().map(|k| (x - k).abs()).filter(|g| *g > 0.0).fold(1.0, f64::min);
                ensure!((d - dwant).abs() <= 1e-8 * (dsize + 1e-2) + 1e-13 * (size + 1.0) / gap, "derivative at {x} is {d}, expected {dwant}");
            }
            // new data is picked up by update
            let mut la = la;
            let xs2: Vec<f64> = xs.iter().enumerate().map(|(i, x)| x + 0.1 * (i * i) as f64).collect();
            la.x = &xs2;
            call("update", || la.update())?;
            let fresh = LagrangeInterpolation::new(&xs2, &ys);
            for &at in ats {
                let (x, ..) = place(&xs2, at);
                let (a, b) = (la.value_with_extrapolation(x, true), fresh.value_with_extrapolation(x, true));
                ensure!(a == b, "after update the interpolation at {x} is {a}, a fresh one gives {b}");
            }
            Ok(())
        },
    );
    // rounding noise around a node must not upset the value
    s.check(
        "beside_a_node",
        6_000,
        120_000,
        || (arb_pts(2..8, 0.2, 2.0), 0usize..8, -40i32..40),
        |((start, pts), k, ulps): &((f64, Vec<(f64, f64)>), usize, i32), cx| {
            let (xs, ys) = nodes(*start, pts);
            let n = xs.len();
            let k = k % n;
            let x = xs[k] + xs[k].abs() * EPS * f64::from(*ulps);
            cx.nontrivial_if(x != xs[k]);
            let la = LagrangeInterpolation::new(&xs, &ys);
            let v = call("value", || la.value_with_extrapolation(x, true))?;
            // |l'| <= about n/gap times the size of the data
            let size = ys.iter().fold(1.0f64, |m, y| m.max(y.abs()));
            ensure!((v - ys[k]).abs() <= 1e-7 * size, "value {ulps} ulps off the node {} is {v}, expected about {}", xs[k], ys[k]);
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------ M05

pub fn m05(s: &mut Session) {
    s.rule(
        "A case is two vectors of up to 100 numbers (of equal or different length) and a scalar, taken \
         through a random sequence of operations held against a plain vector; non-trivial with two or \
         more elements.",
    );
    type Case = (Vec<f64>, Vec<f64>, f64, Vec<u8>);
    s.check(
        "array",
        20_000,
        400_000,
        || {
            let v = || prop_oneof![1 => Just(0.0f64), 7 => -50.0f64..50.0, 2 => (-9.99f64..9.99, -12i32..13).prop_map(|(m, e)| m * 10f64.powi(e))];
            (
                prop_oneof![12 => 0usize..12, 1 => 12usize..100].prop_flat_map(move |n| {
                    (prop::collection::vec(v(), n), prop_oneof![8 => prop::collection::vec(v(), n), 1 => prop::collection::vec(v(), 0..12)])
                }),
                prop_oneof![1 => Just(0.0), 7 => -5.0f64..5.0, 2 => (-9.99f64..9.99, -12i32..13).prop_map(|(m, e)| m * 10f64.powi(e))],
                prop::collection::vec(0u8..16, 1..10),
            )
                .prop_map(|((a, b), k, ops)| (a, b, k, ops))
        },
        |(a, b, k, ops): &Case, cx| {
            cx.nontrivial_if(a.len() > 1);
            let mut model = a.clone();
            let mut arr = Array::new(a.clone());
            let eqv = |got: &Array, want: &[f64], exact: bool, what: &str| -> Res {
                ensure!(
                    got.data.len() == want.len()
                        && got.data.iter().zip(want).all(|(x, y)| if exact { x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()) || (*x == 0.0 && *y == 0.0) } else { near(*x, *y, 1e-12) || (x.is_nan() && y.is_nan()) || x == y }),
                    "{what}: got {:?}, expected {want:?}",
                    got.data
                );
                Ok(())
            };
            for &op in ops {
                let same = model.len() == b.len();
                let cp = || Array::new(model.clone());
                let rhs = || Array::new(b.clone());
                let pairs = |f: &dyn Fn(f64, f64) -> f64| -> Vec<f64> { model.iter().zip(b).map(|(x, y)| f(*x, *y)).collect() };
                let each = |f: &dyn Fn(f64) -> f64| -> Vec<f64> { model.iter().map(|x| f(*x)).collect() };
                let (got, want, exact, what): (Result<Array, String>, Vec<f64>, bool, &str) = match op {
                    0 => (quiet(|| cp() + rhs()), pairs(&|x, y| x + y), true, "array + array"),
                    1 => (quiet(|| cp() - rhs()), pairs(&|x, y| x - y), true, "array - array"),
                    2 => (quiet(|| cp() * rhs()), pairs(&|x, y| x * y), true, "array * array"),
                    3 => (quiet(|| cp() / rhs()), pairs(&|x, y| x / y), true, "array / array"),
                    4 => (quiet(|| cp() + *k), each(&|x| x + k), true, "array + scalar"),
                    5 => (quiet(|| cp() - *k), each(&|x| x - k), true, "array - scalar"),
                    6 => (quiet(|| cp() * *k), each(&|x| x * k), true, "array * scalar"),
                    7 => (quiet(|| cp() / *k), each(&|x| x / k), false, "array / scalar"),
                    8 => (quiet(|| -cp()), each(&|x| -x), true, "-array"),
                    9 => (quiet(|| cp().abs()), each(&|x| x.abs()), true, "abs"),
                    10 => (quiet(|| cp().sqrt()), each(&|x| x.sqrt()), false, "sqrt"),
                    11 => (quiet(|| cp().log()), each(&|x| x.ln()), false, "log"),
                    12 => (quiet(|| cp().exp()), each(&|x| x.exp()), false, "exp"),
                    13 => (quiet(|| cp().pow(*k)), each(&|x| x.powf(*k)), false, "pow"),
                    14 => {
                        let want: f64 = pairs(&|x, y| x * y).iter().sum();
                        let size: f64 = pairs(&|x, y| (x * y).abs()).iter().sum();
                        let got = quiet(|| arr.dot_product(&rhs()));
                        if same {
                            let g = got.map_err(|e| format!("dot_product panicked: {e}"))?;
                            if size.is_finite() {
                                ensure!((g - want).abs() <= 1e-12 * size, "dot product is {g}, expected {want}");
                            }
                        } else {
                            ensure!(got.is_err(), "dot product of different sizes accepted: {got:?}");
                        }
                        let n2 = call("norm2", || arr.norm2())?;
                        let w: f64 = each(&|x| x * x).iter().sum::<f64>().sqrt();
                        ensure!(near(n2, w, 1e-12) || n2 == w || (n2.is_nan() && w.is_nan()), "norm2 is {n2}, expected {w}");
                        continue;
                    }
                    _ => {
                        let mut other = rhs();
                        call("swap", || arr.swap(&mut other))?;
                        eqv(&arr, b, true, "swap")?;
                        eqv(&other, &model, true, "swapped-out array")?;
                        call("swap", || arr.swap(&mut other))?;
                        eqv(&arr, &model, true, "swap back")?;
                        continue;
                    }
                };
                if op < 4 && !same {
                    cx.label("size mismatch");
                    ensure!(got.is_err(), "{what} of sizes {} and {} accepted", model.len(), b.len());
                    continue;
                }
                let got = got.map_err(|e| format!("{what} panicked: {e}"))?;
                eqv(&got, &want, exact, what)?;
                ensure_eq!(got.size(), want.len(), "size");
                ensure_eq!(got.empty(), want.is_empty(), "empty");
                for (i, w) in want.iter().enumerate() {
                    ensure!(got[i] == got.data[i] || w.is_nan(), "element {i}");
                }
                // go on from the result the array itself produced
                model = got.data.clone();
                arr = got;
            }
            if !model.is_empty() {
                let i = (ops[0] as usize * 16 + ops.len()) % model.len();
                arr[i] = 42.5;
                model[i] = 42.5;
                eqv(&arr, &model, true, "assignment by index")?;
            }
            ensure!(quiet(|| arr[model.len()]).is_err(), "index past the end accepted");
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------ M06

pub fn m06(s: &mut Session) {
    s.rule(
        "Searches: a case is a sorted list (with repeated values) and a probe, non-trivial when the probe \
         is neither before nor after everything; the answer is compared with a count of smaller (not \
         greater) elements. Comparisons: a case is a number, a relative distance in units of the machine \
         epsilon and a tolerance; non-trivial when the numbers differ.",
    );
    s.check(
        "bounds",
        20_000,
        400_000,
        || (prop_oneof![8 => prop::collection::vec(-20i32..20, 0..24), 1 => prop::collection::vec(-60i32..60, 24..300)], -22i32..22, 0u8..3),
        |(xs, v, how): &(Vec<i32>, i32, u8), cx| {
            let mut xs = xs.clone();
            xs.sort();
            let lo = xs.iter().filter(|x| *x < v).count();
            let up = xs.iter().filter(|x| *x <= v).count();
            cx.nontrivial_if(lo > 0 && up < xs.len());
            cx.label_if(up > lo + 1, "repeated value");
            let (gl, gu) = match how {
                0 => (call("lower_bound", || lower_bound(&xs, *v))?, call("upper_bound", || upper_bound(&xs, *v))?),
                1 => {
                    let f: Vec<f64> = xs.iter().map(|x| f64::from(*x) / 3.0).collect();
                    let p = f64::from(*v) / 3.0;
                    (call("lower_bound", || lower_bound(&f, p))?, call("upper_bound", || upper_bound(&f, p))?)
                }
                _ => {
                    let base = crate::civil::date(30000);
                    let f: Vec<Date> = xs.iter().map(|x| base + *x).collect();
                    let p = base + *v;
                    (call("lower_bound", || lower_bound(&f, p))?, call("upper_bound", || upper_bound(&f, p))?)
                }
            };
            ensure_eq!(gl, lo, "lower_bound of {v} in {xs:?}");
            ensure_eq!(gu, up, "upper_bound of {v} in {xs:?}");
            Ok(())
        },
    );
    s.check(
        "close",
        40_000,
        800_000,
        || {
            (
                (prop_oneof![Just(0i32), -300i32..300], 1.0f64..2.0, any::<bool>()),
                prop_oneof![Just(0.0f64), 0.0f64..100.0, 0.0f64..3000.0],
                1usize..2600,
                any::<bool>(),
            )
        },
        |((e, m, neg), dist, n, plus): &((i32, f64, bool), f64, usize, bool), cx| {
            let x = m * 2f64.powi(*e) * if *neg { -1.0 } else { 1.0 };
            let y = x * (1.0 + if *plus { 1.0 } else { -1.0 } * dist * EPS);
            let d = ((y - x) / x / EPS).abs(); // as it came out
            cx.nontrivial_if(y != x);
            for (a, b) in [(x, y), (y, x)] {
                let c = close(a, b);
                let ce = close_enough(a, b);
                let cn = close_n(a, b, *n);
                ensure!(!c || ce, "close({a:e}, {b:e}) but not close_enough");
                for (got, tol, what) in [(c, 42.0, "close"), (ce, 42.0, "close_enough"), (cn, *n as f64, "close_n")] {
                    if d <= tol * (1.0 - 1e-9) - 1.0 || d == 0.0 {
                        ensure!(got, "{what}({a:e}, {b:e}) is false at {d} epsilons, tolerance {tol}");
                    }
                    if d >= tol * (1.0 + 1e-9) + 1.0 {
                        ensure!(!got, "{what}({a:e}, {b:e}) is true at {d} epsilons, tolerance {tol}");
                    }
                }
                ensure_eq!(c, close(-a, -b), "close under negation of {a:e}, {b:e}");
                ensure_eq!(cn, close_n(b, a, *n), "symmetry of close_n at {a:e}, {b:e}");
                ensure_eq!(c, close(b, a), "symmetry of close at {a:e}, {b:e}");
            }
            // against zero the tolerance is the square of the relative one
            let t = (42.0 * EPS) * (42.0 * EPS);
            let tn = (*n as f64 * EPS) * (*n as f64 * EPS);
            for q in [0.25, 0.75, 1.25, 4.0] {
                let (z, zn) = (t * q * x.signum(), tn * q * x.signum());
                ensure_eq!(close(z, 0.0), q < 1.0, "close({z:e}, 0)");
                ensure_eq!(close(0.0, z), q < 1.0, "close(0, {z:e})");
                ensure_eq!(close_enough(z, 0.0), q < 1.0, "close_enough({z:e}, 0)");
                ensure_eq!(close_n(zn, 0.0, *n), q < 1.0, "close_n({zn:e}, 0, {n})");
            }
            let inf = f64::INFINITY;
            for f in [close, close_enough] {
                ensure!(f(inf, inf) && f(-inf, -inf) && f(x, x) && f(0.0, -0.0), "a number is not close to itself");
                ensure!(!f(f64::NAN, x) && !f(x, f64::NAN), "NaN is close to {x}");
                ensure!(!f(x, -x), "{x:e} is close to its negative");
            }
            Ok(())
        },
    );
    s.check(
        "edge",
        20_000,
        400_000,
        || (-300i32..300, any::<bool>(), prop_oneof![Just(42i64), 1i64..3000], -2i64..3, any::<bool>(), prop_oneof![4 => Just(0i64), 1 => 0i64..(1 << 52)]),
        |&(e, neg, n, off, below, more): &(i32, bool, i64, i64, bool, i64), cx| {
            // two numbers k units of the last place of 2^52 apart, in that many integers
            let k = (n + off) * if below { -1 } else { 1 };
            let a = (1i64 << 52) + more;
            let v = |i: i64| i as f64 * 2f64.powi(e) * if neg { -1.0 } else { 1.0 };
            let (x, y) = (v(a), v(a + k));
            cx.nontrivial_if(k != 0);
            let (k, n) = (i128::from(k), i128::from(n));
            let within = |i: i64, n: i128| {
                let gap = n * i128::from(i) - (k.abs() << 52);
                // None where the rounding of the bound decides
                if gap < 0 && -gap <= k.abs() * 2 { None } else { Some(gap >= 0) }
            };
            let both = |n: i128| Some((within(a, n)?, within(a + k as i64, n)?));
            for (p, q) in [(x, y), (y, x)] {
                if let Some((u, w)) = both(42) {
                    ensure_eq!(close(p, q), u && w || k == 0, "close({p:e}, {q:e}), {k} units apart");
                    ensure_eq!(close_enough(p, q), u || w || k == 0, "close_enough({p:e}, {q:e}), {k} units apart");
                }
                if let Some((u, w)) = both(n) {
                    ensure_eq!(close_n(p, q, n as usize), u && w || k == 0, "close_n({p:e}, {q:e}, {n}), {k} units apart");
                }
                ensure!(!close(p, -q) && !close_enough(p, -q) && !close_n(-p, q, n as usize), "{p:e} is close to {:e}", -q);
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------ T01

struct Flat {
    reference: Date,
    rate: f64,
    dc: DayCounter,
    asked: Cell<Option<(f64, bool)>>,
    between: Cell<Option<(Date, Date, bool)>>,
}
impl TermStructure for Flat {
    fn time_from_references(&self, date: &Date) -> f64 {
        self.dc.year_fraction(&self.reference, date, &nul(), &nul())
    }
    fn max_date(&self) -> Date {
        Date::max_date()
    }
    fn max_time(&self) -> f64 {
        self.time_from_references(&self.max_date())
    }
    fn reference_date(&self) -> Date {
        self.reference
    }
    fn settlement_days(&self) -> u32 {
        0
    }
}
impl YieldTermStructure for Flat {
    fn discount_frome_time(&self, time: f64, extrapolate: bool) -> f64 {
        self.asked.set(Some((time, extrapolate)));
        (-self.rate * time).exp()
    }
    fn zero_rate_from_date(&self, _: &Date, _: &DayCounter, _: Compounding, _: Frequency, _: bool) -> InterestRate {
        unimplemented!()
    }
    fn zero_rate_from_time(&self, _: f64, _: Compounding, _: Frequency, _: bool) -> InterestRate {
        unimplemented!()
    }
    fn forward_rate_from_dates(&self, d1: &Date, d2: &Date, dc: &DayCounter, comp: Compounding, freq: Frequency, ex: bool) -> InterestRate {
        self.between.set(Some((*d1, *d2, ex)));
        if d2 <= d1 {
            return InterestRate::new(self.rate, dc.clone(), comp, freq);
        }
        let growth = self.discount_from_date(d1, ex) / self.discount_from_date(d2, ex);
        let t = dc.year_fraction(d1, d2, &nul(), &nul());
        InterestRate::new(self.rate, dc.clone(), comp.clone(), freq).implied_rate(growth, dc, &comp, freq, t)
    }
    fn forward_rate_from_times(&self, _: f64, _: f64, _: Compounding, _: Frequency, _: bool) -> InterestRate {
        unimplemented!()
    }
    fn jump_dates(&self) -> Vec<Date> {
        vec![]
    }
    fn jump_times(&self) -> Vec<f64> {
        vec![]
    }
}

struct Zero {
    a: f64,
    b: f64,
}
impl ZeroYieldStructure for Zero {
    fn zero_yield(&self, t: f64) -> f64 {
        assert!(t != 0.0, "zero yield asked at time zero");
        self.a + self.b / (1.0 + t.abs())
    }
}

pub fn t01(s: &mut Session) {
    s.rule(
        "A case is a zero yield curve (two parameters) and a time, or a flat curve with a reference date, \
         a date before or after it, a period of either sign and a day counter; non-trivial when the time is positive.",
    );
    s.check(
        "zero_yield",
        10_000,
        200_000,
        || (prop_oneof![12 => -0.1f64..0.3, 1 => 0.3f64..3.0, 1 => Just(1.0f64)], -0.1f64..0.1, prop_oneof![2 => Just(0.0), 16 => 0.0f64..60.0, 4 => -10.0f64..0.0, 1 => (-10i32..60).prop_map(f64::from), 1 => 0.0f64..1e-4], 0.001f64..5.0),
        |(a, b, t, dt): &(f64, f64, f64, f64), cx| {
            let z = Zero { a: *a, b: *b };
            let d = call("discount", || z.discount(*t))?;
            cx.nontrivial_if(*t != 0.0);
            cx.label_if(*t < 0.0, "before the reference");
            if *t == 0.0 {
                ensure!(d == 1.0, "discount at time 0 is {d}");
                return Ok(());
            }
            let want = 1.0 / (z.zero_yield(*t) * t).exp();
            ensure!(near(d, want, 1e-12), "discount at {t} is {d}, expected {want}");
            // a flat curve discounts multiplicatively
            let f = Zero { a: *a, b: 0.0 };
            let both = call("discount", || f.discount(t + dt))?;
            ensure!(near(both, f.discount(*t) * f.discount(*dt), 1e-12), "flat curve at {a}: {both} over {t}+{dt}");
            Ok(())
        },
    );
    s.check(
        "yield_curve",
        6_000,
        100_000,
        || (prop_oneof![4 => 30_000i32..60_000, 1 => 8_000i32..78_000], prop_oneof![6 => -2_000i32..9_000, 1 => (-5i32..25).prop_map(|k| 360 * k)], -12i32..60, 0u8..4, prop_oneof![6 => -0.05f64..0.2, 1 => 0.2f64..2.0], any::<bool>(), 0usize..3),
        |(r, off, n, u, rate, ex, dc): &(i32, i32, i32, u8, f64, bool, usize), cx| {
            let dc = match dc {
                0 => counter(2, 0),
                1 => DayCounter::actual360(),
                _ => DayCounter::bond_basis(),
            };
            let c = Flat { reference: crate::civil::date(*r), rate: *rate, dc, asked: Cell::new(None), between: Cell::new(None) };
            let d = c.reference + *off;
            cx.nontrivial_if(*off > 0);
            let got = call("discount_from_date", || c.discount_from_date(&d, *ex))?;
            let t = c.time_from_references(&d);
            ensure_eq!(c.asked.get(), Some((t, *ex)), "the time asked of the curve for {d:?}");
            ensure!(near(got, (-rate * t).exp(), 1e-13), "discount at {d:?} is {got}");
            let unit = [TimeUnit::Days, TimeUnit::Weeks, TimeUnit::Months, TimeUnit::Years][*u as usize];
            let p = Period::new(*n, unit);
            let mut end = d;
            end += p;
            let adc = counter(14, 0);
            let got = call("forward_rate_from_date_period", || {
                c.forward_rate_from_date_period(&d, &p, &adc, Compounding::Compounded, Frequency::Semiannual, *ex)
            })?;
            ensure_eq!(c.between.get(), Some((d, end, *ex)), "dates asked of the curve for the forward over {p:?} from {d:?}");
            cx.label_if(*n <= 0, "no time, or backwards");
            let want = c.forward_rate_from_dates(&d, &end, &adc, Compounding::Compounded, Frequency::Semiannual, *ex);
            ensure!(
                got.rate == want.rate && got.frequency() == want.frequency() && got.compounding == want.compounding,
                "forward over {p:?} from {d:?}: {} instead of {}",
                got.rate,
                want.rate
            );
            Ok(())
        },
    );
}

