#![allow(clippy::all)]
mod civil;
#[macro_use]
mod engine;
mod holidays_ref;
mod p_bonds;
mod p_cal;
mod p_dates;
mod p_dc;
mod p_flows;
mod p_forms;
mod p_maths;
mod p_misc;
mod p_rates;
mod p_sched;

use engine::Session;
use std::path::PathBuf;

type Prop = (&'static str, fn(&mut Session));
const PROPS: &[Prop] = &[
    ("D01", p_dates::d01),
    ("D02", p_dates::d02),
    ("D03", p_dates::d03),
    ("D04", p_dates::d04),
    ("P01", p_dates::p01),
    ("P02", p_dates::p02),
    ("I01", p_dates::i01),
    ("C01", p_cal::c01),
    ("C02", p_cal::c02),
    ("C03", p_cal::c03),
    ("C04", p_cal::c04),
    ("C05", p_cal::c05),
    ("C06", p_cal::c06),
    ("C07", p_cal::c07),
    ("S01", p_sched::s01),
    ("S02", p_sched::s02),
    ("S03", p_sched::s03),
    ("S04", p_sched::s04),
    ("S05", p_sched::s05),
    ("S06", p_sched::s06),
    ("Y01", p_dc::y01),
    ("Y02", p_dc::y02),
    ("Y03", p_dc::y03),
    ("Y04", p_dc::y04),
    ("Y05", p_dc::y05),
    ("Y06", p_dc::y06),
    ("R01", p_rates::r01),
    ("R02", p_rates::r02),
    ("R03", p_rates::r03),
    ("F01", p_flows::f01),
    ("F02", p_flows::f02),
    ("F03", p_flows::f03),
    ("F04", p_flows::f04),
    ("F05", p_flows::f05),
    ("F06", p_flows::f06),
    ("M01", p_maths::m01),
    ("M02", p_maths::m02),
    ("M03", p_maths::m03),
    ("M04", p_maths::m04),
    ("M05", p_maths::m05),
    ("M06", p_maths::m06),
    ("B01", p_bonds::b01),
    ("B02", p_bonds::b02),
    ("B03", p_bonds::b03),
    ("B04", p_bonds::b04),
    ("K01", p_misc::k01),
    ("K02", p_misc::k02),
    ("M07", p_maths::m07),
    ("E01", p_forms::e01),
    ("X01", p_forms::x01),
    ("Y07", p_forms::y07),
    ("S07", p_forms::s07),
    ("B05", p_forms::b05),
    ("T01", p_maths::t01),
];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: qlcheck <property> [--replay FILE] | list");
        std::process::exit(2)
    };
    if args.len() < 2 {
        usage()
    }
    if args[1] == "list" {
        for p in PROPS {
            println!("{}", p.0);
        }
        return;
    }
    let Some(&(id, f)) = PROPS.iter().find(|p| p.0 == args[1]) else { usage() };
    let root = PathBuf::from(std::env::var("QLCHECK_ROOT").unwrap_or_else(|_| "/verif".into()));
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut replay = None;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" if i + 1 < args.len() => {
                let t = std::fs::read_to_string(&args[i + 1]).unwrap_or_else(|e| {
                    eprintln!("{}: {e}", args[i + 1]);
                    std::process::exit(2)
                });
                let v: serde_json::Value = serde_json::from_str(&t).expect("replay file is JSON");
                replay = Some((v["check"].as_str().unwrap_or("").to_string(), v["case"].clone()));
                i += 2;
            }
            _ => usage(),
        }
    }
    let mut s = Session::new(id, thorough, seed, root, replay);
    f(&mut s);
    std::process::exit(s.finish());
}
