//! The solvers of the main binary
use crate::drv::*;
use rustsat::solvers::*;
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};


type Cad = rustsat_cadical::CaDiCaL<'static, 'static>;
type Ipa = rustsat_ipasir::IpasirSolver<'static, 'static>;
drv!(Cad: inc phase freeze flip conflicts decisions propagate interrupt internal term learn);
drv!(rustsat_minisat::core::Minisat: inc phase conflicts propagations propagate interrupt internal);
drv!(rustsat_minisat::simp::Minisat: inc elim phase freeze conflicts propagations propagate interrupt internal);
drv!(rustsat_glucose::core::Glucose: inc phase conflicts propagations propagate interrupt internal);
drv!(rustsat_glucose::simp::Glucose: inc elim phase freeze conflicts propagations propagate interrupt internal);
drv!(rustsat_batsat::BasicSolver: inc);
drv!(Ipa: inc term learn);

/// CaDiCaL with a limit that lets solve calls end without a verdict
pub struct Limited;
impl Initialize<Cad> for Limited {
    fn init() -> Cad {
        let mut s = Cad::default();
        LimitDecisions::limit_decisions(&mut s, Some(0)).unwrap();
        s
    }
}
pub struct ExtCadical;
impl Initialize<ExternalSolver> for ExtCadical {
    fn init() -> ExternalSolver {
        crate::p22::real("cadical", 4, 1)
    }
}
pub struct ExtOwn;
impl Initialize<ExternalSolver> for ExtOwn {
    fn init() -> ExternalSolver {
        crate::p22::real("own", 2, 1)
    }
}
type SimCad = simulators::Incremental<Cad>;
type SimLim = simulators::Incremental<Cad, Limited>;
type SimMini = simulators::Incremental<rustsat_minisat::core::Minisat>;
type SimGlu = simulators::Incremental<rustsat_glucose::simp::Glucose>;
type SimBat = simulators::Incremental<rustsat_batsat::BasicSolver>;
type SimIpa = simulators::Incremental<Ipa>;
type SimSim = simulators::Incremental<SimBat>;
type SimExt = simulators::Incremental<ExternalSolver, ExtCadical>;
type SimOwn = simulators::Incremental<ExternalSolver, ExtOwn>;
drv!(SimCad: inc);
drv!(SimLim: inc);
drv!(SimMini: inc);
drv!(SimGlu: inc);
drv!(SimBat: inc);
drv!(SimIpa: inc);
drv!(SimSim: inc);
drv!(SimExt: inc);
drv!(SimOwn: inc);

/// Simulated incremental solvers and whether they start a process for each solve call
pub fn sims() -> Vec<(&'static str, Traits, bool)> {
    let mut out = vec![
        ("sim-cadical", INC, false),
        ("sim-limited", Traits { may_stop: true, ..INC }, false),
        ("sim-minisat", INC, false),
        ("sim-glucose-simp", INC, false),
        ("sim-batsat", INC, false),
        ("sim-ipasir", INC, false),
        ("sim-sim-batsat", INC, false),
        ("sim-ext-own", INC, true),
    ];
    if crate::p22::program("cadical").is_some() {
        out.push(("sim-ext-cadical", INC, true));
    }
    out
}

pub fn solvers() -> Vec<(&'static str, Traits)> {
    let ms = Traits { internal_clauses: true, ..INC };
    let cad = Traits { one_shot_limits: true, ..INC };
    vec![
        ("cadical", cad),
        ("cadical-plain", cad),
        ("cadical-sat", cad),
        ("cadical-unsat", cad),
        ("minisat-core", ms),
        ("minisat-simp", ms),
        ("glucose-core", ms),
        ("glucose-simp", Traits { reserved: Some(8), ..ms }),
        ("glucose-simp-free", Traits { one_shot: true, ..ms }),
        ("batsat", Traits { configuring: false, ..ms }),
        ("ipasir", INC),
    ]
}

pub fn create(name: &str) -> Box<dyn Drv> {
    let cad = |c: rustsat_cadical::Config| -> Box<dyn Drv> {
        let mut s = Cad::default();
        s.set_configuration(c).unwrap();
        Box::new(s)
    };
    match name {
        "cadical" => Box::new(Cad::default()),
        "cadical-phases" => {
            // no luck: every value is a decision or follows from decisions
            let mut c = Cad::default();
            c.set_option("lucky", 0).unwrap();
            c.set_option("walk", 0).unwrap();
            Box::new(c)
        }
        "cadical-plain" => cad(rustsat_cadical::Config::Plain),
        "cadical-sat" => cad(rustsat_cadical::Config::Sat),
        "cadical-unsat" => cad(rustsat_cadical::Config::Unsat),
        "minisat-core" => Box::new(rustsat_minisat::core::Minisat::default()),
        "minisat-simp" => Box::new(rustsat_minisat::simp::Minisat::default()),
        "glucose-core" => Box::new(rustsat_glucose::core::Glucose::default()),
        "glucose-simp" => {
            // the contract of the preprocessing solver: what is used after solving is frozen
            let mut s = rustsat_glucose::simp::Glucose::default();
            for v in 0..=8 {
                s.freeze_var(Var::new(v)).unwrap();
            }
            Box::new(s)
        }
        "glucose-simp-free" => Box::new(rustsat_glucose::simp::Glucose::default()),
        "batsat" => Box::new(rustsat_batsat::BasicSolver::default()),
        "ipasir" => Box::new(Ipa::default()),
        "sim-cadical" => Box::new(SimCad::default()),
        "sim-limited" => Box::new(SimLim::default()),
        "sim-minisat" => Box::new(SimMini::default()),
        "sim-glucose-simp" => Box::new(SimGlu::default()),
        "sim-batsat" => Box::new(SimBat::default()),
        "sim-ipasir" => Box::new(SimIpa::default()),
        "sim-sim-batsat" => Box::new(SimSim::default()),
        "sim-ext-cadical" => Box::new(SimExt::default()),
        "sim-ext-own" => Box::new(SimOwn::default()),
        _ => panic!("unknown solver {name}"),
    }
}
