//! One object-safe view on all solvers, with the optional parts of the interfaces
use rustsat::instances::Cnf;
use rustsat::solvers::*;
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};

pub type R<T> = anyhow::Result<T>;
pub type O<T> = Option<anyhow::Result<T>>;

pub trait Drv {
    fn add(&mut self, c: &Clause, how: usize) -> R<()>;
    fn reserve(&mut self, v: Var) -> R<()>;
    fn solve(&mut self) -> R<SolverResult>;
    fn lit_val(&self, l: Lit) -> R<TernaryVal>;
    fn var_val(&self, v: Var) -> R<TernaryVal>;
    fn solution(&self, v: Var) -> R<Assignment>;
    fn full_solution(&self) -> R<Assignment>;
    fn stats(&self) -> SolverStats;
    fn stat_parts(&self) -> (usize, usize, usize, usize, Option<Var>, usize, usize);
    fn solve_assumps(&mut self, _a: &[Lit]) -> O<SolverResult> {
        None
    }
    fn core(&mut self) -> O<Vec<Lit>> {
        None
    }
    fn phase(&mut self, _l: Lit) -> O<()> {
        None
    }
    fn unphase(&mut self, _v: Var) -> O<()> {
        None
    }
    fn freeze(&mut self, _v: Var) -> O<()> {
        None
    }
    fn melt(&mut self, _v: Var) -> O<()> {
        None
    }
    fn is_frozen(&mut self, _v: Var) -> O<bool> {
        None
    }
    fn flip(&mut self, _l: Lit) -> O<bool> {
        None
    }
    fn flippable(&mut self, _l: Lit) -> O<bool> {
        None
    }
    fn limit_conflicts(&mut self, _l: Option<u32>) -> O<()> {
        None
    }
    fn limit_decisions(&mut self, _l: Option<u32>) -> O<()> {
        None
    }
    fn limit_propagations(&mut self, _l: Option<u32>) -> O<()> {
        None
    }
    fn propagate(&mut self, _a: &[Lit], _ps: bool) -> O<PropagateResult> {
        None
    }
    fn interrupt(&mut self) -> Option<()> {
        None
    }
    fn interrupter(&mut self) -> Option<Box<dyn Fn()>> {
        None
    }
    fn internal(&self) -> Option<(usize, usize, usize)> {
        None
    }
    fn attach_term(&mut self, _f: Box<dyn FnMut() -> ControlSignal>) -> bool {
        false
    }
    fn detach_term(&mut self) {}
    fn attach_learn(&mut self, _f: Box<dyn FnMut(Clause)>, _max: usize) -> bool {
        false
    }
    fn detach_learn(&mut self) {}
    /// The variable is gone because of preprocessing
    fn eliminated(&mut self, _v: Var) -> bool {
        false
    }
}

fn caught(f: impl FnOnce()) -> R<()> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| anyhow::anyhow!("panic in extend"))
}

/// Adds a clause through one of the ways of the interface
pub fn add_via<S: Solve>(s: &mut S, c: &Clause, how: usize) -> R<()> {
    let v: Vec<Lit> = c.iter().copied().collect();
    match (how % 7, v.len()) {
        // extending has no error to return
        (5, _) => caught(|| s.extend([c.clone()])),
        (6, _) => caught(|| s.extend([c])),
        (0, 1) => s.add_unit(v[0]),
        (0, 2) => s.add_binary(v[0], v[1]),
        (0, 3) => s.add_ternary(v[0], v[1], v[2]),
        (0 | 1, _) => Solve::add_clause(s, c.clone()),
        (2, _) => s.add_clause_ref(c),
        (3, _) => s.add_cnf([c.clone()].into_iter().collect::<Cnf>()),
        _ => s.add_cnf_ref(&[c.clone()].into_iter().collect::<Cnf>()),
    }
}

macro_rules! basic {
    () => {
        fn add(&mut self, c: &Clause, how: usize) -> R<()> {
            add_via(self, c, how)
        }
        fn reserve(&mut self, v: Var) -> R<()> {
            Solve::reserve(self, v)
        }
        fn solve(&mut self) -> R<SolverResult> {
            Solve::solve(self)
        }
        fn lit_val(&self, l: Lit) -> R<TernaryVal> {
            Solve::lit_val(self, l)
        }
        fn var_val(&self, v: Var) -> R<TernaryVal> {
            Solve::var_val(self, v)
        }
        fn solution(&self, v: Var) -> R<Assignment> {
            Solve::solution(self, v)
        }
        fn full_solution(&self) -> R<Assignment> {
            Solve::full_solution(self)
        }
        fn stats(&self) -> SolverStats {
            SolveStats::stats(self)
        }
        fn stat_parts(&self) -> (usize, usize, usize, usize, Option<Var>, usize, usize) {
            (
                self.n_sat_solves(),
                self.n_unsat_solves(),
                self.n_terminated(),
                SolveStats::n_clauses(self),
                self.max_var(),
                self.n_vars(),
                self.n_solves(),
            )
        }
    };
}
macro_rules! part {
    (inc) => {
        fn solve_assumps(&mut self, a: &[Lit]) -> O<SolverResult> {
            Some(SolveIncremental::solve_assumps(self, a))
        }
        fn core(&mut self) -> O<Vec<Lit>> {
            Some(SolveIncremental::core(self))
        }
    };
    (phase) => {
        fn phase(&mut self, l: Lit) -> O<()> {
            Some(PhaseLit::phase_lit(self, l))
        }
        fn unphase(&mut self, v: Var) -> O<()> {
            Some(PhaseLit::unphase_var(self, v))
        }
    };
    (freeze) => {
        fn freeze(&mut self, v: Var) -> O<()> {
            Some(FreezeVar::freeze_var(self, v))
        }
        fn melt(&mut self, v: Var) -> O<()> {
            Some(FreezeVar::melt_var(self, v))
        }
        fn is_frozen(&mut self, v: Var) -> O<bool> {
            Some(FreezeVar::is_frozen(self, v))
        }
    };
    (flip) => {
        fn flip(&mut self, l: Lit) -> O<bool> {
            Some(FlipLit::flip_lit(self, l))
        }
        fn flippable(&mut self, l: Lit) -> O<bool> {
            Some(FlipLit::is_flippable(self, l))
        }
    };
    (conflicts) => {
        fn limit_conflicts(&mut self, l: Option<u32>) -> O<()> {
            Some(LimitConflicts::limit_conflicts(self, l))
        }
    };
    (decisions) => {
        fn limit_decisions(&mut self, l: Option<u32>) -> O<()> {
            Some(LimitDecisions::limit_decisions(self, l))
        }
    };
    (propagations) => {
        fn limit_propagations(&mut self, l: Option<u32>) -> O<()> {
            Some(LimitPropagations::limit_propagations(self, l))
        }
    };
    (propagate) => {
        fn propagate(&mut self, a: &[Lit], ps: bool) -> O<PropagateResult> {
            Some(Propagate::propagate(self, a, ps))
        }
    };
    (interrupt) => {
        fn interrupt(&mut self) -> Option<()> {
            let i = Interrupt::interrupter(self);
            i.interrupt();
            Some(())
        }
        fn interrupter(&mut self) -> Option<Box<dyn Fn()>> {
            let i = Interrupt::interrupter(self);
            Some(Box::new(move || i.interrupt()))
        }
    };
    (internal) => {
        fn internal(&self) -> Option<(usize, usize, usize)> {
            Some((
                GetInternalStats::propagations(self),
                GetInternalStats::decisions(self),
                GetInternalStats::conflicts(self),
            ))
        }
    };
    (term) => {
        fn attach_term(&mut self, f: Box<dyn FnMut() -> ControlSignal>) -> bool {
            Terminate::attach_terminator(self, f);
            true
        }
        fn detach_term(&mut self) {
            Terminate::detach_terminator(self);
        }
    };
    (elim) => {
        fn eliminated(&mut self, v: Var) -> bool {
            self.var_eliminated(v)
        }
    };
    (learn) => {
        fn attach_learn(&mut self, f: Box<dyn FnMut(Clause)>, max: usize) -> bool {
            Learn::attach_learner(self, f, max);
            true
        }
        fn detach_learn(&mut self) {
            Learn::detach_learner(self);
        }
    };
}

/// What the interface of a solver promises
#[derive(Clone, Copy, Debug)]
pub struct Traits {
    /// further clauses may be added after a solve call
    pub incremental: bool,
    /// `n_clauses` is the number of clauses the solver holds internally, not the number added
    pub internal_clauses: bool,
    /// initial state is `Configuring`
    pub configuring: bool,
    /// limits hold for the next solve call only
    pub one_shot_limits: bool,
    /// no clauses or assumptions after a solve call: variables may have been eliminated
    pub one_shot: bool,
    /// no use after an interrupted call
    pub dead_after_stop: bool,
    /// the solver is created with the variables up to this number reserved
    pub reserved: Option<usize>,
    /// every call may stop early because of the way the solver was initialized
    pub may_stop: bool,
}

pub const INC: Traits = Traits { incremental: true, internal_clauses: false, configuring: true, one_shot_limits: false, one_shot: false, dead_after_stop: false, reserved: None, may_stop: false };

macro_rules! drv {
    ($t:ty: $($p:ident)*) => {
        impl Drv for $t {
            basic!();
            $(part!($p);)*
        }
    };
}
pub(crate) use {basic, drv, part};
