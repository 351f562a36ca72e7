#![cfg_attr(not(feature = "custom"), allow(unused_imports))]
mod cases;
mod device;
mod dump;
mod engine;
mod ev;
mod model;
mod p_age;
mod p_calc;
mod p_decode;
mod p_driver;
mod p_libm;
mod p_more;
mod p_race;
mod p_reg;
mod spec;

use engine::{Property, Tier};

fn property(id: &str) -> Option<Property> {
    Some(match id {
        "C01" => p_decode::c01(),
        "C02" => p_decode::c02(),
        "C03" => p_decode::c03(),
        "C04" => p_decode::c04(),
        "C05" => p_decode::c05(),
        "C06" => p_driver::c06(),
        "C07" => p_decode::c07(),
        "C08" => p_decode::c08(),
        "C09" => p_decode::c09(),
        "C10" => p_calc::c10(),
        "C11" => p_calc::c11(),
        "C12" => p_calc::c12(),
        "C13" => p_calc::c13(),
        "C14" => p_calc::c14(),
        "C15" => p_calc::c15(),
        "C16" => p_calc::c16(),
        "C17" => p_calc::c17(),
        "C18" => p_driver::c18(),
        "C19" => p_driver::c19(),
        "C20" => p_driver::c20(),
        "C21" => p_driver::c21(),
        "C22" => p_driver::c22(),
        "C23" => p_driver::c23(),
        "C24" => p_reg::c24(),
        "C25" => p_reg::c25(),
        "C26" => p_driver::c26(),
        "C27" => p_driver::c27(),
        "C28" => p_libm::c28(),
        "C29" => p_driver::c29(),
        "C30" => p_more::c30(),
        "C31" => p_more::c31(),
        "C32" => p_more::c32(),
        "C33" => p_more::c33(),
        "C34" => p_more::c34(),
        "C35" => p_more::c35(),
        _ => return None,
    })
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.iter().map(String::as_str).collect::<Vec<_>>()[..] {
        ["check", id] => run(id, None),
        ["check", id, family] => run(id, Some(family)),
        ["replay", path] => replay(path),
        _ => {
            eprintln!("usage: mlxprop check <ID> [family] | replay <file>");
            3
        }
    };
    std::process::exit(code);
}

fn run(id: &str, family: Option<&str>) -> i32 {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let Some(p) = property(id) else {
        eprintln!("unknown property {id}");
        return 3;
    };
    engine::install_panic_hook();
    engine::check(&p, tier, seed, family)
}

fn replay(path: &str) -> i32 {
    let v: serde_json::Value = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|s| {
        serde_json::from_str(&s).map_err(|e| e.to_string())
    }) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 3;
        }
    };
    let Some(p) = v["property"].as_str().and_then(property) else {
        eprintln!("{path} names no known property");
        return 3;
    };
    // The case failed in the other build of the library: it has to be judged there.
    if let Some(build) = v["build"].as_str().filter(|b| *b != engine::BUILD) {
        let dir = if build == "plain" { "plain" } else { "release" };
        let other = std::env::current_exe().ok().and_then(|p| Some(p.parent()?.parent()?.join(dir).join("mlxprop")));
        return match other.map(|p| std::process::Command::new(p).args(["replay", path]).status()) {
            Some(Ok(s)) => s.code().unwrap_or(1),
            e => {
                eprintln!("cannot run the {build} build: {e:?}");
                3
            }
        };
    }
    engine::install_panic_hook();
    engine::replay(&p, &v, path)
}
