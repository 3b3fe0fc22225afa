//! Actions reach the host as written: the events of a run are exactly the actions the executed
//! commands ask for, in order, with the arguments as written.
use crate::report::Rep;
use crate::rng::Rng;
use crate::Prop;

pub const PROP: Prop = Prop { id: "P05", quick: 2_300_000, thorough: 6_000_000, directed, case };

fn case(rep: &mut Rep, r: &mut Rng) {
    super::p04::run_model(rep, r, r.clone().chance(1, 4), true)
}

fn directed(_rep: &mut Rep) {}
