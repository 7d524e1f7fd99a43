//! The properties: families of cases with their oracles.
use std::sync::Mutex;

use crate::case::Prop;

mod convert;
mod equal;
mod place;
mod lenient;
mod queries;
mod robust;
mod runtime;
mod strict;
mod xml;

static NOTE: Mutex<String> = Mutex::new(String::new());

/// The input being processed, for reports of panics.
pub fn at(s: &str) {
    let mut n = NOTE.lock().unwrap_or_else(|e| e.into_inner());
    n.clear();
    n.push_str(s);
}
pub fn note() -> String {
    crate::case::clip(&NOTE.lock().unwrap_or_else(|e| e.into_inner()))
}

pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => strict::c01(),
        "C02" => strict::c02(),
        "C03" => strict::c03(),
        "C04" => strict::c04(),
        "C05" => lenient::c05(),
        "C06" => lenient::c06(),
        "C07" => xml::c07(),
        "C08" => xml::c08(),
        "C09" => queries::c09(),
        "C10" => queries::c10(),
        "C11" => queries::c11(),
        "C12" => queries::c12(),
        "C13" => queries::c13(),
        "C14" => queries::c14(),
        "C15" => queries::c15(),
        "C16" => runtime::c16(),
        "C17" => runtime::c17(),
        "C18" => robust::c18(),
        "C19" => robust::c19(),
        "C20" => runtime::c20(),
        "C23" => equal::c23(),
        "C25" => convert::c25(),
        "C24" => place::c24(),
        "C21" => runtime::c21(),
        _ => return None,
    })
}

/// Subcommands without the big stack.
pub fn plain(a: &[String]) -> i32 {
    match a.first().map(String::as_str) {
        Some("stack") => robust::stack(&a[1..]),
        Some("grow") => robust::grow(&a[1..]),
        Some("corpus") => crate::remote::save(&a[1..]),
        Some("digest") => crate::remote::digest(&a[1..]),
        Some("hammer") => crate::remote::hammer(&a[1..]),
        Some("threads") => crate::remote::threads(&a[1..]),
        Some("history") => crate::remote::history(&a[1..]),
        _ => {
            eprintln!("unknown command {a:?}");
            3
        }
    }
}
