#[path = "../../mc/src/rt.rs"]
#[allow(dead_code)]
mod rt;
mod model;
mod p28;
mod p31;
mod tool;

fn main() {
    rt::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let mut replay = None;
    let mut prop = args.get(1).cloned().unwrap_or_default();
    if prop == "replay" {
        let txt = std::fs::read_to_string(&args[2]).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&txt).expect("replay json");
        prop = v["property"].as_str().unwrap().into();
        thorough = v["thorough"].as_bool().unwrap_or(false);
        replay = Some((v["group"].as_str().unwrap().into(), v["case"].as_str().unwrap().into()));
    }
    let cx = rt::Ctx::new(&prop, &root, thorough, seed, replay);
    match prop.as_str() {
        "P28" => p28::run(&cx),
        "P31" => p31::run(&cx),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
    tool::cleanup();
    std::process::exit(cx.finish());
}
