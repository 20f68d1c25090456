#![allow(clippy::type_complexity)]
mod common;
mod oracle;
mod rt;
mod veripb;

macro_rules! properties {
    ($($name:literal $module:ident),* $(,)?) => {
        $(mod $module;)*
        fn dispatch(prop: &str, cx: &rt::Ctx) -> bool {
            match prop {
                $($name => $module::run(cx),)*
                _ => return false,
            }
            true
        }
    };
}
properties! {
    "P01" p01, "P02" p02, "P03" p03, "P04" p04, "P05" p05, "P06" p06, "P07" p07, "P08" p08, "P09" p09, "P10" p10,
    "P11" p11, "P12" p12, "P13" p13, "P14" p14, "P15" p15, "P16" p16, "P17" p17, "P18" p18, "P19" p19, "P26" p26, "P30" p30,
}

fn main() {
    rt::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let mut replay = None;
    let mut prop = args.get(1).cloned().unwrap_or_default();
    if prop == "replay" {
        let txt = std::fs::read_to_string(&args[2]).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&txt).expect("replay json");
        prop = v["property"].as_str().unwrap().into();
        thorough = v["thorough"].as_bool().unwrap_or(false);
        replay = Some((v["group"].as_str().unwrap().into(), v["case"].as_str().unwrap().into()));
    }
    let cx = rt::Ctx::new(&prop, &root, thorough, seed, replay);
    if !dispatch(&prop, &cx) {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    }
    std::process::exit(cx.finish());
}
