#![allow(clippy::type_complexity)]
#[allow(dead_code)]
#[path = "../../mc/src/common.rs"]
mod common;
#[allow(dead_code)]
#[path = "../../mc/src/oracle.rs"]
mod oracle;
#[path = "../../mc/src/rt.rs"]
#[allow(dead_code)]
mod rt;
#[allow(dead_code, unused_macros, unused_imports)]
mod drv;
mod all;
mod ipasir;
use all as sol;
mod hist;
mod p20;
mod p20x;
mod p27;
mod p27f;
#[allow(dead_code)]
#[path = "../../mc/src/veripb.rs"]
mod veripb;
#[allow(dead_code)]
mod p22;
mod p22s;
#[allow(dead_code)]
#[path = "../../mc/src/p19.rs"]
mod p19;
#[allow(dead_code)]
mod p23;
mod p24;
mod p25;

fn dispatch(prop: &str, cx: &rt::Ctx) -> bool {
    match prop {
        "P20" => {
            p20::run_p20(cx);
            p20x::run(cx);
        }
        "P21" => p20::run_p21(cx),
        "P22" => {
            p22::run_p22(cx);
            p22s::run(cx);
        }
        "P23" => p23::run_p23(cx),
        "P24" => p24::run_p24(cx),
        "P25" => p25::run_p25(cx),
        "P27" => {
            p27::run_p27(cx);
            p27f::run(cx);
        }
        _ => return false,
    }
    true
}

fn main() {
    if p22::as_process() {
        return;
    }
    rt::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let mut replay = None;
    let mut prop = args.get(1).cloned().unwrap_or_default();
    if prop == "replay" {
        let txt = std::fs::read_to_string(&args[2]).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&txt).expect("replay json");
        prop = v["property"].as_str().unwrap().into();
        thorough = v["thorough"].as_bool().unwrap_or(false);
        replay = Some((v["group"].as_str().unwrap().into(), v["case"].as_str().unwrap().into()));
    }
    let cx = rt::Ctx::new(&prop, &root, thorough, seed, replay);
    if !dispatch(&prop, &cx) {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    }
    std::process::exit(cx.finish());
}
