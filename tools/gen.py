#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DT, CF, MA = "src/datetime/", "src/cashflows/", "src/maths/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note))


ENUM = "exhaustive enumeration against a reference model (property-based testing)"
MODEL = "property-based testing against an independent reference model"
META = "property-based testing: metamorphic relations and round trips"
HIST = "model-based (stateful) property testing over operation histories"

# ---------------------------------------------------------------- dates
prop("D01", "Dates are exactly the days of 1900-2199, and their fields agree",
     "Every day from 1 January 1900 to 31 December 2199 has one serial number, one (day, month, year) and one weekday, "
     "consecutive days have consecutive serials, and building a date from any of its forms gives the same date. "
     "Days, months or serial numbers outside that calendar are refused.",
     "inputs", "every day of the 300 supported years and every constructor argument, valid or not",
     "Unit tests look at a few dozen dates; leap years, table boundaries and range ends are sampled once or not at all.",
     [DT + "date.rs", DT + "weekday.rs", DT + "months.rs"],
     [("Date::new / Date::from_serial and field accessors", DT + "date.rs")], ENUM,
     "All 109 573 days are enumerated; constructor arguments are generated. Trusts a table-free civil-calendar reference.")
prop("D02", "Day arithmetic moves by exactly that many days or is refused",
     "Adding or subtracting n days (or weeks) to a date moves its serial number by exactly n (or 7n), in the pure and the in-place forms alike, "
     "and the difference and order of dates are those of their serial numbers. Results outside the supported range are refused, never returned.",
     "inputs histories", "any date, any signed day count, any sequence of up to 12 in-place and pure operations",
     "Tests add small numbers of days to a few dates; the in-place forms and the range ends are not exercised.",
     [DT + "date.rs"], [("Add/Sub/AddAssign/SubAssign of days and periods, Ord", DT + "date.rs")], HIST,
     "Generated dates biased to month, leap and range ends; histories are held against integer arithmetic.")
prop("D03", "Month and year steps keep the day of month or clip to the month end",
     "Moving a date by months or years lands in the month that many months away, on the same day of month or, where that month is shorter, on its last day. "
     "Steps are monotone in the date, and steps leaving the supported range are refused.",
     "inputs", "any date and any signed number of months or years",
     "The defining cases (29-31 of a month, leap days, negative steps over a year end) are sampled by a handful of tests.",
     [DT + "date.rs", DT + "period.rs"], [("Date + Period", DT + "date.rs")], MODEL,
     "Generated dates biased to days 27-31 and leap days, steps up to the whole range.")
prop("D04", "Month ends and nth weekdays are where the calendar says",
     "The end of a date's month, the test for being at a month end and the nth given weekday of any month agree with the civil calendar, "
     "and an nth weekday that the month does not have is refused.",
     "inputs", "every month of 1900-2199, every weekday, n from 0 to 7",
     "Tests check single months; five-weekday months and February are special in every century.",
     [DT + "date.rs"], [("Date::end_of_month, is_end_of_month, nth_weekday", DT + "date.rs")], ENUM,
     "All 3 600 months and every (n, weekday) in them are enumerated.")
prop("P01", "Periods convert, add and scale without changing the time they mean",
     "Converting a period between units, normalising, negating, scaling, dividing and adding periods give periods of the same meaning, moving dates alike, or are refused where no exact answer exists. "
     "Equal periods hash equally, and each frequency and its period turn into each other.",
     "inputs", "pairs of periods in any units with signed lengths, and dates to move",
     "Tests fix a dozen period sums and conversions; mixed units, zero and negative lengths are not covered.",
     [DT + "period.rs", DT + "frequency.rs"], [("Period arithmetic, normalisation, Hash, frequency()", DT + "period.rs")], META,
     "Meaning is measured in months or days independently; undecidable mixtures must be refused.")
prop("P02", "Period comparison is consistent with every way the periods can play out",
     "When one period compares less than another, moving any date by it never lands later than moving by the other; comparison is antisymmetric, transitive and agrees with equality. "
     "Periods whose order depends on the calendar are left unordered or refused.",
     "inputs", "triples of periods in mixed units and of either sign, and any start date",
     "Tests compare a few periods in one unit; consistency is a statement about all triples and start dates.",
     [DT + "period.rs"], [("PartialOrd/PartialEq of Period, days_min_max", DT + "period.rs")], META,
     "Generated triples are biased so that spans overlap or coincide; periods are put against days at the bounds of their spans, up to sixty years.")
prop("I01", "IMM dates and codes: recognised, produced and resolved consistently",
     "A date is an IMM date exactly when it is a third Wednesday (of a March-cycle month for the main cycle), the next IMM date is the first one after the reference, and the code of an IMM date resolves back to it from any reference within the preceding ten years. "
     "Strings that are not codes are refused, whatever they contain.",
     "inputs", "every day of 1901-2198 as date or reference, every code, arbitrary strings",
     "Tests walk one decade from fixed dates; digit wrap-around, early years and malformed codes are untested.",
     [DT + "imm.rs"], [("IMM::is_imm_date, date, code, next_date, next_code", DT + "imm.rs")], ENUM,
     "Days are enumerated; code queries, references and strings are generated.")
# ---------------------------------------------------------------- calendars
prop("C01", "Easter is computed correctly for every supported year",
     "For every year of the supported range the Western and Orthodox Easter Mondays used by the calendars are those of the Gregorian and Julian computus. Years outside the range are refused.",
     "inputs", "every year 1900-2199, both churches",
     "The dates come from tables of 600 entries of which tests exercise a handful.",
     [DT + "calendar.rs", DT + "holiday.rs"], [("easter_monday, easter_monday_orthodox tables", DT + "holiday.rs")], ENUM,
     "Complete: all 600 entries through both entry points. Trusts the published computus algorithms.")
prop("C02", "Each market's holidays follow its published rules on every day",
     "In every supported market a day is a business day exactly when it is neither a weekend day nor one of the holidays its rules describe (fixed, weekday-based, Easter-based, observed and one-off holidays, with the years they apply in).",
     "inputs configurations", "every day of 1900-2199 in each of the 18 calendars",
     "Tests list the holidays of two to four years for some of the markets.",
     [DT + "holidays/" + f for f in ("brazil.rs", "italy.rs", "japan.rs", "switzerland.rs", "target.rs", "unitedkingdom.rs", "unitedstates.rs", "weekendsonly.rs", "nilholiday.rs")],
     [("Holiday::is_holiday of each market", DT + "holidays/")], ENUM,
     "Complete over 18 x 109 573 market-days, against rules restated as a holiday generator. The rules are those documented in the sources and published lists; a rule wrong in both places would pass.")
prop("C03", "Added and removed holidays override the market's rules everywhere",
     "After any sequence of adding, removing and resetting holidays, every query of a calendar (business day, holiday, lists, adjustment) sees exactly the market's days with the latest override of each date applied. Clones are independent, and no operation invents an override.",
     "histories", "sequences of up to 14 add, remove, reset, clone operations on nearby dates, queries after each",
     "Tests add one holiday to one calendar; interplay of repeated overrides on holidays, weekends and business days is a history property.",
     [DT + "calendar.rs"], [("Calendar::add_holiday, remove_holiday, reset_added_and_removed_holidays, is_holiday", DT + "calendar.rs")], HIST,
     "All queries are repeated after every operation against a map of overrides.")
prop("C04", "Adjusted dates are the business days their convention names",
     "Adjusting a date gives, for each business day convention, the business day that convention defines (following, preceding, modified with the month or mid-month boundary, nearest, unadjusted), and business days are unchanged.",
     "inputs configurations", "any date, all seven conventions, 18 markets with generated extra and removed holidays",
     "Tests adjust a few dates in one market; month boundaries inside long holiday runs need unusual calendars.",
     [DT + "calendar.rs", DT + "businessdayconvention.rs"], [("Calendar::adjust", DT + "calendar.rs")], MODEL,
     "Holiday runs are generated so that long runs, month-end and mid-month cases occur; also enumerated for one year in every market.")
prop("C05", "Advancing counts business days, or rolls the calendar date then adjusts",
     "Advancing by days steps over exactly that many business days; advancing by weeks, months or years moves the calendar date and adjusts it, keeping month ends at the last business day when asked to. Advancing by a period and by its length and unit agree.",
     "inputs configurations", "any date, signed lengths in any unit, conventions, end-of-month flag, markets with overrides",
     "Tests advance a handful of dates; negative steps, zero steps and end-of-month rolling are combinations no test samples.",
     [DT + "calendar.rs"], [("Calendar::advance_by_days, advance_by_period", DT + "calendar.rs")], MODEL,
     "Compared with a day-walking model, plus undo and counting relations.")
prop("C06", "Business days between two dates are counted as asked, in both directions",
     "The number of business days between two dates counts each business day of the interval once, with either end included or not as asked, and changes sign when the dates are swapped. Lists of business days and holidays contain exactly the days of their kind, in order.",
     "inputs configurations", "any pair of dates in either order, inclusion flags, markets with overrides",
     "Tests count a fixed set of intervals in one market with one flag combination each.",
     [DT + "calendar.rs"], [("Calendar::business_days_between, holiday_list, business_day_list", DT + "calendar.rs")], MODEL,
     "Compared with a day-by-day count; range ends are enumerated.")
prop("C07", "The last business day of a month is found whatever the month's end looks like",
     "The end of month of a calendar is the last business day of the date's month, and a date counts as being at the month end exactly when no business day of its month follows it.",
     "inputs configurations", "every day of 1960-2059 in 18 markets, and dates near month ends with generated overrides",
     "Tests cover one market over a date walk without extra holidays.",
     [DT + "calendar.rs"], [("Calendar::end_of_month, is_end_of_month", DT + "calendar.rs")], ENUM,
     "Enumerated without overrides, generated with them.")
# ---------------------------------------------------------------- schedules
prop("S01", "Backward, forward and zero schedules have exactly the dates described",
     "A schedule built backward, forward or without intermediate dates has exactly the dates its arguments describe: steps of the tenor from the generating end, explicit first and next-to-last dates, month-end rolling, each adjusted by its convention and the termination date by its own. "
     "Inconsistent arguments are refused.",
     "inputs configurations", "all combinations of dates, tenor, stubs, conventions, month-end flag over markets with overrides",
     "Tests pin about ten schedules; the space of stub, month-end and convention combinations is where generation goes wrong.",
     [DT + "schedule.rs", DT + "schedulebuilder.rs"], [("Schedule::new, ScheduleBuilder", DT + "schedule.rs")], MODEL,
     "Every generated schedule is compared date for date with an independent generator. Month-end rolling that puts the start after the end is not judged.")
prop("S02", "IMM, twentieth and CDS schedules fall on their rule's days",
     "Schedules on third Wednesdays, on twentieths and of credit default swaps have exactly the dates their rule defines, including the CDS stub and roll rules, and each unadjusted date is a day the rule allows. Arguments the rules do not allow are refused.",
     "inputs configurations", "start and end dates anywhere around roll days, tenors of 1, 3, 6, 12 months, all conventions",
     "Tests pin a few CDS schedules around three trade dates.",
     [DT + "schedule.rs", DT + "dategenerationrule.rs"], [("rule branches of Schedule::new, next_twentieth, previous_twentieth", DT + "schedule.rs")], MODEL,
     "Compared with an independent generator and the rule's defining days; dates are biased to roll days.")
prop("S03", "Schedules are ordered, adjusted, covering, and their accessors agree",
     "A schedule's dates strictly increase where its tenor is longer than any run of holidays, are business days where a convention applies, start and end at its (adjusted) bounds, and all its accessors describe the same list. Extending the end of an unadjusted schedule leaves its earlier forward-generated dates as they were.",
     "inputs configurations", "schedules of every rule over markets with overrides",
     "Structural validity is a statement about all arguments; tests compare ten lists.",
     [DT + "schedule.rs"], [("Schedule::new and accessors", DT + "schedule.rs")],
     "property-based testing: invariants and metamorphic relations",
     "No generation model is used. Order is required where tenors exceed holiday runs and explicit stubs are not moved to month ends.")
prop("S04", "Each period's regular flag says whether it is a full tenor",
     "A schedule reports one regularity flag per period, true exactly for the periods that span a full tenor by the generation rule, stubs being irregular.",
     "inputs configurations", "schedules of every rule with and without stubs",
     "No test looks at the flags of more than one schedule; coupon reference periods and Act/Act depend on them.",
     [DT + "schedule.rs"], [("is_regular bookkeeping in Schedule::new", DT + "schedule.rs")], MODEL,
     "Compared with the reference generator; unadjusted regular periods are re-derived from the tenor.")
prop("S05", "Searching and truncating a schedule keep its meaning",
     "The next and previous dates of a schedule are the nearest of its dates on the asked side, and truncating it before or after a date keeps exactly the dates and regularity flags on that side, the cut being irregular where it falls inside a period. Truncations chain.",
     "inputs histories", "schedules of every rule, any reference date, chains of up to five truncations",
     "Tests truncate one schedule at three dates.",
     [DT + "schedule.rs"], [("next_date, previous_date, after, until", DT + "schedule.rs")], HIST,
     "Compared with the list of dates and flags the schedule had before.")
prop("S06", "CDS maturities and twentieths follow the market standard",
     "The standard maturity of a credit default swap for any trade date, tenor and convention is the twentieth the convention names, is after the trade date and never moves back as trading moves on; tenors outside whole quarters are refused.",
     "inputs", "any trade date 1930-2130, tenors in months and years, three conventions",
     "Tests cover three conventions on a dozen trade dates each.",
     ["src/instruments/creditdefaultswap.rs", DT + "schedule.rs"], [("cds_maturity, previous_twentieth", "src/instruments/creditdefaultswap.rs")], MODEL,
     "Closed forms of the maturity; trade dates biased to within two days of rolls.")
# ---------------------------------------------------------------- day counters
WHY_DC = "Tests evaluate a few date pairs per convention; the conventions differ only at month ends, Februaries and leap years."
prop("Y01", "Actual/360 and Actual/366 count real days",
     "Actual/360 and Actual/366 day counts are the calendar days between the dates (plus one when the last day is included), their year fractions those days over 360 or 366, and swapping the dates changes the sign.",
     "inputs", "any pair of dates in either order, with and without the last day", WHY_DC,
     [DT + "daycounters/actual360.rs", DT + "daycounters/actual366.rs"], [("day_count, year_fraction", DT + "daycounters/")], MODEL,
     "Generated pairs plus every start day of eight years.")
prop("Y02", "30/360 variants and 30/365 follow their published definitions",
     "Each 30/360 variant and 30/365 gives 360 per year, 30 per month and the difference of the days of month, with the day-31 and end-of-February rules its published definition has, in either date order.",
     "inputs", "any pair of dates in either order, every variant, any termination date", WHY_DC,
     [DT + "daycounters/thirty360.rs", DT + "daycounters/thirty365.rs"], [("day_count of each convention", DT + "daycounters/thirty360.rs")], MODEL,
     "Generated pairs biased to month ends and February plus every start day of eight years; termination dates matter for the ISDA variant.")
prop("Y03", "Actual/Actual (ISDA) splits at year ends",
     "The Actual/Actual (ISDA) fraction is the sum over calendar years of the days falling in each over that year's length; it is additive over split intervals and changes sign with the order of dates.",
     "inputs", "any pair of dates, in the same or different years, and any point in between", WHY_DC,
     [DT + "daycounters/actualactual.rs"], [("ISDA::year_fraction", DT + "daycounters/actualactual.rs")], MODEL,
     "Generated pairs plus every start day of eight years.")
prop("Y04", "Actual/Actual (ISMA) counts coupon periods",
     "The Actual/Actual (ISMA) fraction counts, for each notional coupon period of the schedule or reference period, the days falling in it over its length times the coupon frequency; whole regular periods count as exactly one over the frequency and short and long stubs are split at notional dates.",
     "inputs configurations", "coupon schedules with short and long stubs at both ends, any interval inside, any reference period",
     "Tests replay the ISDA memo's examples; stub kinds and intervals cutting them are a product space.",
     [DT + "daycounters/actualactual.rs"], [("ISMA and OldISMA::year_fraction", DT + "daycounters/actualactual.rs")], MODEL,
     "Schedules pay every 1, 2, 3, 4, 6 or 12 months with stubs under two tenors.")
prop("Y05", "Actual/Actual (AFB) counts whole years back from the end",
     "The Actual/Actual (AFB) fraction is the number of whole years counted back from the end date plus the remaining days over 365, or 366 when they include a 29 February.",
     "inputs", "any pair of dates in either order, biased to Februaries", WHY_DC,
     [DT + "daycounters/actualactual.rs"], [("AFB::year_fraction", DT + "daycounters/actualactual.rs")], MODEL,
     "Generated pairs plus every start day of eight years; 27 February to 2 March is a class of its own.")
prop("Y06", "The simple and one-for-one counters keep their definitions",
     "The simple day counter gives whole months exactly as twelfths whenever the days of month match (or are cut by a month end) and 30/360 otherwise; the one-for-one counter gives plus or minus one.",
     "inputs", "any pair of dates in either order", WHY_DC,
     [DT + "daycounters/simple.rs", DT + "daycounters/one.rs"], [("year_fraction", DT + "daycounters/simple.rs")], MODEL,
     "Generated pairs, whole-month pairs and every start day of eight years.")
# ---------------------------------------------------------------- rates
prop("R01", "Growth and discount factors follow the compounding convention",
     "An interest rate grows one unit over a time by exactly the factor its compounding convention, frequency and day counter define, discounts by the reciprocal, and reports the arguments it was built from. Negative times and missing frequencies are refused.",
     "inputs configurations", "rates from -20% to 50%, five conventions, eleven frequencies, times to 40 years, dates under 18 day counters",
     "Tests replay one table of rates; mixed conventions switch formula at one period, where no test goes.",
     ["src/rates/interestrate.rs", "src/rates/compounding.rs"], [("InterestRate::compound_factor, discount_factor", "src/rates/interestrate.rs")], MODEL,
     "Growth factors computed independently, times mixed around the first period.")
prop("R02", "Implied rates reproduce the growth they were implied from",
     "The rate implied by a growth factor over a time or between dates, in any convention, grows one unit to that factor again. A factor of one implies a zero rate, and impossible factors or times are refused.",
     "inputs", "growth factors 0.05 to 20, conventions, frequencies, times, dates and day counters",
     "Inverse relations hold for all inputs or not at all; tests check a table of pairs.",
     ["src/rates/interestrate.rs"], [("InterestRate::implied_rate, implied_rate_between_dates", "src/rates/interestrate.rs")], META,
     "Round trips through the library's own and the reference growth factor.")
prop("R03", "Equivalent rates are worth the same",
     "Converting a rate to another convention, frequency or day counter keeps the growth over the conversion's time, and converting back gives the original rate.",
     "inputs", "rates, two conventions and frequencies, times, dates and two day counters",
     "Tests convert the rates of one table; the pairs of conventions form a product space.",
     ["src/rates/interestrate.rs"], [("InterestRate::equivalent_rate, equivalent_rate_between_dates", "src/rates/interestrate.rs")], META,
     "Round trips and comparison with the reference growth factor.")
# ---------------------------------------------------------------- cash flows
prop("F01", "Coupon legs have exactly the coupons their schedule describes",
     "A fixed-rate leg has one coupon per schedule period with that period's accrual dates, reference period, notional, rate and day counter, paid on the end date moved by lag, payment calendar and convention, with the ex-coupon date its period describes. "
     "Notionals and rates shorter than the schedule repeat their last value, and what is set later replaces what was set before.",
     "inputs configurations", "schedules of every plain rule, whole or truncated, notionals, rates, first and last day counters, payment and ex-coupon conventions",
     "Tests build one leg; stubs, lags, calendars and ex-coupon rules combine freely.",
     [CF + "fixedrateleg.rs", CF + "fixedratecoupon.rs"], [("FixedRateLeg::build and setters", CF + "fixedrateleg.rs")], MODEL,
     "Every field of every coupon is compared with a model computed from the schedule and calendar models.")
prop("F02", "Coupons pay and accrue what their rate and period define",
     "A coupon pays its notional times the growth of its rate over its accrual period less one; before that it has accrued the same over the elapsed part, nothing outside its life, and the negative of the rest once it trades ex-coupon. "
     "A leg's accrued amount, days and period at a date are those of its next payment, and it matures with its last accrual period, or its last payment if nothing in it accrues.",
     "inputs", "legs as for F01, dates at, beside and between accrual, payment and ex-coupon dates",
     "Tests accrue one bond at one date.",
     [CF + "fixedratecoupon.rs", CF + "coupon.rs", CF + "cashflow.rs"], [("amount, accrued_amount, accrued_period, accrued_days", CF + "fixedratecoupon.rs")], MODEL,
     "Reference day counters and growth factors; intervals outside the reference-period convention are skipped.")
prop("F03", "Cash flows occur, trade ex-coupon and answer alike however they are held",
     "A cash flow has occurred from its payment date on (that date counting as asked), trades ex-coupon from its ex-coupon date on if it has one, and gives the same answers held by value or shared, as a coupon or as a cash flow.",
     "inputs", "legs as for F01 and simple flows, dates around payment and ex-coupon dates, four ways of holding",
     "Forwarding between trait objects is untested; a missing forward falls back silently to a default.",
     [CF + "cashflow.rs", CF + "coupon.rs", CF + "simplecashflow.rs"], [("has_occurred, trading_ex_coupon, impls for Rc", CF + "cashflow.rs")],
     "property-based testing: differential between representations, with a reference model", "All trait methods are compared.")
prop("F04", "Present value is the sum of the discounted flows still to be paid",
     "The present value of cash flows is the sum of the amounts still due on the settlement date (flows on that date as asked, ex-coupon flows left out), each discounted period by period at the yield; it is linear in the amounts, undiscounted at a zero rate and zero without flows.",
     "inputs", "legs with redemptions and further payments, conventions, frequencies, day counters, settlement and valuation dates",
     "One bond price is tested; which flows count and over which times is a product of dates and flags.",
     [CF + "cashflow.rs"], [("npv, get_stepwise_discount_time", CF + "cashflow.rs")], MODEL,
     "Also compared with the closed sum of discounted flows where the convention allows. Cases with negative periods under the discounting day counter are skipped.")
prop("F05", "Yields reproduce the price they were solved from",
     "The yield found for a present value, by any of the three solvers, discounts the flows back to that value and is within the asked accuracy of the yield the value was computed at. Values the flows' signs cannot produce are refused.",
     "inputs", "positive flows, conventions, day counters, yields 0.1%-25%, accuracies 1e-10 to 1e-6, guesses, three solvers",
     "One yield is tested; convergence depends on the guess, convention and time to maturity.",
     [CF + "irrfinder.rs", CF + "cashflow.rs"], [("bond_yield, IrrFinder", CF + "irrfinder.rs")], META,
     "Round trip through an independent price. One known finding is listed: NewtonSafe on prices below one; prices of one and above are judged.")
prop("F06", "Modified duration is the price's relative sensitivity to the yield",
     "The modified duration of cash flows is minus the relative derivative of their present value with respect to the yield, for every compounding convention, and zero without flows.",
     "inputs", "legs with redemptions and further payments, yields and conventions, settlement dates",
     "Derivatives are not tested at all on their own; they only steer the yield search.",
     [CF + "cashflow.rs"], [("modified_duration", CF + "cashflow.rs")],
     "property-based testing: numerical differentiation of reference and library prices",
     "Central differences; kinks of the mixed conventions and prices near zero are skipped.")
# ---------------------------------------------------------------- bonds
prop("B01", "Bonds have the cash flows, notionals and dates they were issued with",
     "A fixed-rate bond has the coupons of its schedule and one redemption of the redemption price times the face on the last payment date, in date order with the redemption after coupons of the same day; a zero coupon bond has the redemption alone, on the adjusted maturity. Notionals, maturity and issue dates are those given.",
     "inputs configurations", "schedules, faces, coupon rates, day counters, payment and ex-coupon conventions, redemptions, issue dates",
     "One bond of each kind is tested, with default options.",
     ["src/instruments/fixedratebond.rs", "src/instruments/zerocouponbond.rs"], [("FixedRateBond::new_with_options, ZeroCouponBond::new_with_options", "src/instruments/fixedratebond.rs")], MODEL,
     "Flows are compared with the leg model. Ex-coupon terms are given completely or not at all.")
prop("B02", "Clean price, dirty price, accrued and yield of a bond fit together",
     "A bond's dirty price is the value of its remaining flows per 100 of notional, its clean price that less the accrued amount, and the yield of a clean price is the yield that gives that price; none depends on the size of the face. After redemption a bond accrues nothing and has no price or yield.",
     "inputs", "bonds as for B01, settlement dates at and between their dates, conventions, yields, accuracies, guesses",
     "One bond at one date and yield is tested.",
     ["src/instruments/bond.rs", "src/pricingengines/bond/bondfunctions.rs"], [("Bond::bond_yield*, *_price_from_yield, accrued_amount", "src/instruments/bond.rs")], META,
     "Model prices, round trips and two solvers. Yields are solved for where the price is at least 1.")
prop("B03", "Zero coupon bonds price as one discounted payment",
     "A zero coupon bond accrues nothing, is worth its discounted redemption at any yield and gives that yield back, and its discount-yield price is 100 less 100 times the yield times days over 360. Its period is its days to maturity in thirty-day months, rounded.",
     "inputs configurations", "maturities, calendars, conventions, redemptions, faces, settlement dates, yields",
     "One bill is tested.",
     ["src/instruments/zerocouponbond.rs", "src/instruments/bond.rs"], [("price_from_discount_yield, period, prices", "src/instruments/zerocouponbond.rs")], MODEL,
     "Single-payment closed forms and round trips.")
prop("B04", "Bonds settle on business days, after issue, and trade until redeemed",
     "A trade settles the given number of business days later in the bond's calendar but not before the issue date, and a bond has its face as notional and is tradeable strictly before its redemption date, with zero notional from that date on.",
     "inputs configurations", "bonds, settlement days 0-60 (mostly 0-7), trade dates around issue, payments, redemption and holidays",
     "Tests pass the settlement date in; the settlement rule and the notional's step are not tested.",
     ["src/instruments/bond.rs"], [("Bond::settlement_date, notional, is_tradeable", "src/instruments/bond.rs")], MODEL,
     "Calendar model with generated overrides.")
# ---------------------------------------------------------------- maths
prop("M01", "Rounding rounds the way it says",
     "Rounding to a number of places moves a number to a neighbouring multiple of the last place in the direction its kind defines (up, down, closest by its digit, ceiling, floor), symmetric in sign where the kind is, and leaves multiples alone.",
     "inputs", "five kinds, precisions -12 to 15, digits 1 to 9, values of any magnitude and either sign, fractions away from the deciding digit",
     "Tests check a table of ten numbers at five precisions.",
     [MA + "rounding.rs"], [("Rounding::round", MA + "rounding.rs")], MODEL,
     "The expected count of units is decided in integers; ties only where binary numbers represent them.")
prop("M02", "Solvers find the root within accuracy and stay in bounds",
     "Each one-dimensional solver returns a point within the asked accuracy of the root of a continuous monotone function, from a guess and step or a bracket, evaluating only inside the bracket or enforced bounds. Brackets without a sign change and invalid arguments are refused.",
     "inputs", "five function families, increasing and decreasing, scaled; three solvers; accuracies 1e-12 to 0.1; guesses, brackets, bounds",
     "Tests solve three functions from fixed guesses.",
     [MA + "solvers1d/solver1d.rs", MA + "solvers1d/brent.rs", MA + "solvers1d/newtonsafe.rs", MA + "solvers1d/finitedifferencenewtonsafe.rs"],
     [("Solver1D::solve, solve_with_bounds, solve_impl", MA + "solvers1d/solver1d.rs")], MODEL,
     "Roots are known by construction and every evaluated point is recorded. Discontinuous and multi-root functions are outside.")
prop("M03", "Linear interpolation is the piecewise linear function and its calculus",
     "Linear interpolation returns the given ordinates at the nodes and the straight line between them, extends the end lines when extrapolating and refuses otherwise; its derivative, primitive and second derivative are those of that function.",
     "inputs", "2 to 120 ascending nodes (mostly up to 12), any ordinates, positions at nodes, inside and outside",
     "Tests interpolate one data set.",
     [MA + "interpolations/linearinterpolation.rs", MA + "interpolations/interpolation.rs"], [("LinearInterpolation", MA + "interpolations/linearinterpolation.rs")], MODEL,
     "Compared with a direct evaluation; data changed afterwards is re-read.")
prop("M04", "Lagrange interpolation is the polynomial through the points",
     "Lagrange interpolation returns the ordinates at the nodes and the value and derivative of the unique polynomial through the points everywhere else, reproducing polynomials of lower degree.",
     "inputs", "2 to 30 nodes (mostly up to 9, zero among them), ordinates, positions at, beside and between nodes",
     "Tests interpolate one function at one set of nodes.",
     [MA + "interpolations/lagrangeinterpolation.rs"], [("LagrangeInterpolation", MA + "interpolations/lagrangeinterpolation.rs")], MODEL,
     "Lagrange form summed directly; node gaps within a factor of 10 so that the sum is well conditioned.")
prop("M05", "Arrays compute elementwise, like plain vectors",
     "Every arithmetic operation, function, product and norm of arrays gives elementwise what the same operation on a plain vector gives, in the pure and in-place forms alike, and arrays of different sizes are refused.",
     "inputs histories", "arrays of 0 to 12 numbers, scalars, sequences of operations",
     "Tests try each operator once on one pair.",
     [MA + "array.rs"], [("operators and functions of Array", MA + "array.rs")], HIST,
     "Random operation sequences held against a plain vector.")
prop("M06", "Bound searches and approximate comparison mean what they say",
     "Lower and upper bound searches return the number of elements less than, respectively not greater than, the value; approximate comparison is symmetric and true exactly within the stated multiple of the machine epsilon, with a squared tolerance against zero.",
     "inputs", "sorted lists with repeats and any probe; numbers of any magnitude at generated distances",
     "Tests search one list and compare no numbers near the tolerance.",
     [MA + "bounds.rs", MA + "comparison.rs"], [("lower_bound, upper_bound, close, close_enough", MA + "bounds.rs")], MODEL,
     "Counting oracle for searches; distances measured in epsilons for comparisons.")
prop("T01", "Term structures discount by their zero yields and convert dates to times",
     "A zero-yield curve discounts at exp(-yield x time) and at one at time zero, and a yield curve's date-based discounts and period forwards are its time-based discounts and date-based forwards at the times and dates they stand for.",
     "inputs", "zero-yield curves and times, flat curves with reference dates, dates, periods and day counters",
     "Term structures have no unit tests.",
     ["src/termstructures/zeroyieldstructure.rs", "src/termstructures/yieldtermstructure.rs"], [("ZeroYieldStructure::discount, YieldTermStructure provided methods", "src/termstructures/yieldtermstructure.rs")], MODEL,
     "Only the provided methods that are implemented are judged; most of the term structures are placeholders.")
prop("K01", "Currencies carry their ISO codes and are told apart",
     "Every currency reports its ISO 4217 code and number and a hundred fractions per unit, equals only itself, and rounds amounts to the cent in euro and not at all otherwise.",
     "configurations inputs", "every pair of the 17 currencies and generated amounts",
     "No test reads the currency data.",
     ["src/currencies/currency.rs", "src/currencies/europe.rs", "src/currencies/asia.rs", "src/currencies/america.rs", "src/currencies/oceania.rs", "src/currencies/africa.rs", "src/currencies/money.rs"],
     [("CurrencyData of each currency", "src/currencies/")], ENUM,
     "Complete over pairs; trusts the ISO 4217 table (CNH has the yuan's number, as in the library).")
prop("K02", "Quotes and stocks report the quoted value",
     "A simple quote reports the value it was given and a stock on it is worth that value, however many stocks share the quote and however often they are asked.",
     "inputs", "finite values of any magnitude and sign",
     "One value is tested.",
     ["src/quotes/simplequote.rs", "src/instruments/stock.rs", "src/instruments/instrument.rs"], [("SimpleQuote, Stock::perform_calculations, Instrument::npv", "src/instruments/stock.rs")], META,
     "Narrow: the pricing framework around it is a placeholder.")

EXTRA = os.path.join(ROOT, "tools", "extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']}",
        "thorough_cmd": f"./check.sh --tier thorough {p['id']}",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "One Rust harness (harness/, proptest) decides every property by generated or enumerated inputs against independent reference models; "
             "no hooks in /repo. Known and fixed findings are in known-findings.txt. A check that cannot build or answer exits 2.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

import glob, re
rules, assumes = {}, {}
for fn in sorted(glob.glob(os.path.join(ROOT, "harness/src/p_*.rs"))):
    src = open(fn).read()
    for m in re.finditer(r"pub fn ([a-z]\d\d)\(s: &mut Session\)(.*?)(?=\npub fn [a-z]\d\d\(s: &mut Session\)|\Z)", src, re.S):
        body = m.group(2)
        pick = lambda kw: [re.sub(r"\\\n\s*", "", x) for x in re.findall(r"s\." + kw + r"\(\s*\"((?:[^\"\\]|\\.|\\\n)*)\"", body)]
        rules[m.group(1).upper()] = pick("rule")
        assumes[m.group(1).upper()] = pick("assume")
bugs = []
for d in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    m = json.load(open(d))
    bugs.append((os.path.basename(os.path.dirname(d)), m))
caught = {}
cf = os.path.join(ROOT, "tools", "catches.json")
if os.path.exists(cf):
    caught = json.load(open(cf))
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(ROOT, "tools/design_head.md")).read())
    f.write("\n## The properties\n")
    for p in P:
        assert rules.get(p["id"]), p["id"]
        f.write(f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n")
        f.write(f"*Decided by* {p['technique']}, over {p['text']}. {' '.join(rules[p['id']])}\n")
        f.write(f"*Bounds and trust:* {p['note']}{''.join(' ' + a for a in assumes[p['id']])}\n")
        f.write(f"*Beyond the tests:* {p['why']}\n")
    f.write(open(os.path.join(ROOT, "tools/design_tail.md")).read())
    f.write("| bug | property | what it needs | caught (quick, seed 1) |\n|---|---|---|---|\n")
    for n, m in bugs:
        f.write(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, '?')} |\n")
    tn = os.path.join(ROOT, "tools/design_notes.md")
    if os.path.exists(tn):
        f.write(open(tn).read())
print(len(P), "properties")
