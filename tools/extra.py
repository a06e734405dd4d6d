# further properties; executed by gen.py
prop("E01", "Months, weekdays, frequencies and times have the numbers they are known by",
     "Months are numbered 1 to 12, IMM month letters carry their month's number, frequencies their periods per year, and weekdays 1 to 7 from Sunday (Saturday also answering to 0); other numbers are refused, and conversions both ways agree with the names. "
     "Saturday and Sunday make the weekend, a time in years times the year's length is the nearest whole number of days, and today and the default evaluation date are the clock's.",
     "inputs", "every number from -400 to 400 and generated ones; any time up to 200 years and any year length to 400 days",
     "Tests use a few months and weekdays by name; refused numbers and the conversions to numbers are not tested.",
     [DT + "months.rs", DT + "weekday.rs", DT + "weekend.rs", DT + "imm.rs", DT + "frequency.rs", "src/context/pricing_context.rs"],
     [("From<i32> for Month and Weekday, Weekend::is_weekend", DT + "months.rs"), ("time_to_days", DT + "mod.rs")], ENUM,
     "The numbers are enumerated; the clock is read with a day's tolerance.")
prop("X01", "Periods, dates, schedules and bonds print what they hold",
     "A period prints as its length and its unit's letter, a date as its ISO form, a schedule as its dates in order, and a fixed rate or zero coupon bond with its maturity date; printing never fails.",
     "inputs", "periods of any length and unit, every date, schedules of any rule and the bonds issued on them",
     "One period and no schedule or bond is printed by a test.",
     [DT + "period.rs", DT + "date.rs", DT + "schedule.rs", "src/instruments/fixedratebond.rs", "src/instruments/zerocouponbond.rs"],
     [("Debug implementations", DT + "period.rs")], META,
     "Only the dates in the text, in order, and the period's text are judged; the surrounding words are free.")
prop("Y07", "Day counters are equal exactly when they define the same counting",
     "Day counters compare equal, and carry the same name, exactly when they are the same definition or two names for one; copies are equal; equal counters count and measure alike on every pair of dates.",
     "inputs configurations", "every pair of 19 day counters and any two dates, in order or not",
     "No test compares day counters.",
     [DT + "daycounter.rs"],
     [("PartialEq and name of DayCounter", DT + "daycounter.rs")], ENUM,
     "All pairs are enumerated. The maturity of 30/360 German and ISDA is not part of the library's equality and is not compared.")
prop("S07", "The schedule builder builds what its last settings say",
     "Whatever options are set on a schedule builder, in whatever order and however often, the schedule built is the one constructed directly from the last value of each option and, for options never set, from the defaults: following convention, the same convention at the end, backward generation, no end-of-month rule, no stub dates.",
     "inputs histories", "schedule specifications and histories of up to fourteen settings",
     "Tests set each option once in one order.",
     [DT + "schedulebuilder.rs"], [("ScheduleBuilder setters and build", DT + "schedulebuilder.rs")], HIST,
     "Histories of settings against the direct constructor; the schedules themselves are judged by S01 to S04.")
prop("B05", "Bond functions are the cash flow functions per hundred of notional",
     "For any leg the bond functions report the cash flow functions' maturity, accrual period and days, their accrued amount and present value per hundred of notional with the settlement day's own flows excluded, and the yield whose present value is the price.",
     "inputs configurations", "legs of any schedule, redemptions, notionals, settlement dates around every flow, rates of every convention",
     "Bond functions are only reached through two bonds priced in tests.",
     ["src/pricingengines/bond/bondfunctions.rs", CF + "cashflow.rs"], [("bondfunctions", "src/pricingengines/bond/bondfunctions.rs")], MODEL,
     "Compared with the cash flow functions and with the reference present value; the yield is a round trip on legs with positive flows.")
prop("M07", "Solvers stop at their evaluation limit and never report a root they lack",
     "A solver evaluates its function no more often than its limit allows, to within a step; a limit that suffices leaves the answer unchanged, one that does not is answered by a refusal, and functions without a root are refused rather than searched for ever.",
     "inputs histories", "smooth functions, constants and jumps in brackets up to 1e300 wide; limits of 1 to 200 evaluations; every evaluation is counted",
     "No test reaches an evaluation limit.",
     [MA + "solvers1d/solver1d.rs", MA + "solvers1d/brent.rs", MA + "solvers1d/newtonsafe.rs", MA + "solvers1d/finitedifferencenewtonsafe.rs"],
     [("evaluation_number and max_evaluations", MA + "solvers1d/solver1d.rs")], META,
     "Evaluations are counted by the generated function itself.")
