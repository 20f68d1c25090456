//! Kissat has a binary of its own: its symbols clash with the ones of CaDiCaL
use crate::drv::*;
use rustsat::solvers::*;
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};

type Kis = rustsat_kissat::Kissat<'static>;
drv!(Kis: term interrupt);

type SimKis = simulators::Incremental<Kis>;
drv!(SimKis: inc);

pub fn sims() -> Vec<(&'static str, Traits, bool)> {
    vec![("sim-kissat", INC, false)]
}

pub fn solvers() -> Vec<(&'static str, Traits)> {
    vec![
        ("kissat", Traits { incremental: false, dead_after_stop: true, ..INC }),
        ("kissat-plain", Traits { incremental: false, dead_after_stop: true, ..INC }),
        ("kissat-sat", Traits { incremental: false, dead_after_stop: true, ..INC }),
        ("kissat-unsat", Traits { incremental: false, dead_after_stop: true, ..INC }),
    ]
}

pub fn create(name: &str) -> Box<dyn Drv> {
    if name == "sim-kissat" {
        return Box::new(SimKis::default());
    }
    let mut s = Kis::default();
    match name {
        "kissat" => (),
        "kissat-plain" => s.set_configuration(rustsat_kissat::Config::Plain).unwrap(),
        "kissat-sat" => s.set_configuration(rustsat_kissat::Config::Sat).unwrap(),
        "kissat-unsat" => s.set_configuration(rustsat_kissat::Config::Unsat).unwrap(),
        _ => panic!("unknown solver {name}"),
    }
    Box::new(s)
}
