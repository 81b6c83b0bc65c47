//! The properties: each is a scenario (workload, faults) together with its oracle.

use crate::sim::{Outcome, Sim};

mod answers;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod cb;
mod common;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod sweeps;

pub struct Prop {
    pub id: &'static str,
    pub name: &'static str,
    pub run: fn(&Sim) -> Outcome,
}

pub const ALL: &[Prop] = &[
    Prop { id: "C01", name: "boolean set semantics", run: c01::run },
    Prop { id: "C02", name: "contours", run: c02::run },
    Prop { id: "C03", name: "winding numbers", run: c03::run },
    Prop { id: "C04", name: "closeness", run: c04::run },
    Prop { id: "C05", name: "order of arrival", run: c05::run },
    Prop { id: "C06", name: "repeatability", run: c06::run },
    Prop { id: "C07", name: "independent sweeps", run: c07::run },
    Prop { id: "C08", name: "checkpoints", run: c08::run },
    Prop { id: "C09", name: "sweep events", run: c09::run },
    Prop { id: "C10", name: "sweep line order", run: c10::run },
    Prop { id: "C11", name: "crashing callbacks", run: c11::run },
    Prop { id: "C12", name: "segment collections", run: c12::run },
    Prop { id: "C13", name: "faulty input", run: c13::run },
    Prop { id: "C14", name: "ordered sequence", run: c14::run },
    Prop { id: "C15", name: "comparisons", run: c15::run },
    Prop { id: "C16", name: "sharing", run: c16::run },
    Prop { id: "C17", name: "progress", run: c17::run },
    Prop { id: "C18", name: "positions", run: c18::run },
    Prop { id: "C19", name: "chained operations", run: c19::run },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}

/// Executes the inputs of the known findings of a property: defects that are described in
/// DESIGN.md but not repaired. Each is one specific input.
pub fn known(id: &str) -> Vec<(String, Outcome)> {
    match id {
        "C01" => c01::known(),
        _ => Vec::new(),
    }
}
