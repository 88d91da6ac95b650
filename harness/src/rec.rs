//! Observations of the current run and the violations found in it
use std::cell::RefCell;
use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};
use simcore::now_ns;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub property: String,
    /// stable short name of what went wrong, used to recognise the same violation
    pub class: String,
    pub detail: String,
    pub t_ms: f64,
}

const ENOUGH: u32 = 60;

#[derive(Default)]
pub struct Rec {
    pub viols: Vec<Violation>,
    pub history: Vec<String>,
    pub keep_history: bool,
    pub nontrivial: u64,
    pub focus: String,
    hits: u32,
}

thread_local! {
    static REC: RefCell<Rec> = RefCell::new(Rec::default());
    static COUNTS: RefCell<BTreeMap<String, u64>> = const { RefCell::new(BTreeMap::new()) };
}

pub fn reset(keep_history: bool, focus: &str) {
    REC.with(|r| *r.borrow_mut() = Rec { keep_history, focus: focus.into(), ..Default::default() });
    COUNTS.with(|c| c.borrow_mut().clear());
}

pub fn take() -> Rec {
    REC.with(|r| std::mem::take(&mut *r.borrow_mut()))
}

pub fn take_counts() -> BTreeMap<String, u64> {
    COUNTS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

/// Counts something worth reporting (operations, rare conditions reached)
pub fn count(name: &str, n: u64) {
    COUNTS.with(|c| *c.borrow_mut().entry(name.to_string()).or_default() += n);
}

/// Marks that the run exercised the property's oracle
pub fn nontrivial() {
    REC.with(|r| r.borrow_mut().nontrivial += 1);
}

pub fn viol(properties: &[&str], class: &str, detail: impl Into<String>) {
    let detail = detail.into();
    let t_ms = now_ns() as f64 / 1e6;
    simcore::log_with(|| format!("VIOLATION {properties:?} {class}: {detail}"));
    REC.with(|r| {
        let mut r = r.borrow_mut();
        if r.viols.len() > 200 {
            return;
        }
        // storms caused by a violation need not be followed to their end
        if properties.iter().any(|p| *p == r.focus) {
            r.hits += 1;
            if r.hits > ENOUGH {
                simcore::request_stop();
            }
        }
        for p in properties {
            r.viols.push(Violation {
                property: p.to_string(),
                class: class.into(),
                detail: detail.clone(),
                t_ms,
            });
        }
    })
}

pub fn note(f: impl FnOnce() -> String) {
    let keep = REC.with(|r| r.borrow().keep_history);
    if keep {
        let s = f();
        simcore::log_with(|| format!("* {s}"));
    }
}
