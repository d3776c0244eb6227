mod compare;
mod core;
mod extra;
mod flows;
mod imports;
mod layout;
mod macros;
mod model;
mod quoting;
mod reent;
mod shard;
mod template;
mod tl;
mod values;

use crate::core::*;
use std::time::Instant;

type CheckFn = fn(&Opts) -> Stats;

const CHECKS: &[(Meta, CheckFn, &str)] = &[
    (
        Meta { id: "C01", level: "model_checking", assumptions: &[] },
        layout::c01,
        "every history over the alphabet up to the depth bound; a history is a state, appending one operation a transition; outcome = distinct rendered text",
    ),
    (
        Meta { id: "C02", level: "model_checking", assumptions: &[] },
        layout::c02,
        "as C01; outcome = distinct stored stream",
    ),
    (
        Meta { id: "C03", level: "model_checking", assumptions: &[] },
        flows::c03,
        "every pair of histories up to the bound, composed in every way; outcome = distinct rendered text",
    ),
    (
        Meta { id: "C04", level: "model_checking", assumptions: &[] },
        flows::c04,
        "every history of stream-building operations up to the bound; outcome = distinct import multiset",
    ),
    (
        Meta { id: "C05", level: "model_checking", assumptions: &[] },
        imports::c05,
        "every sequence of references up to the bound, every language and configuration; outcome = distinct file",
    ),
    (
        Meta { id: "C06", level: "model_checking", assumptions: &[] },
        imports::c06,
        "as C05",
    ),
    (
        Meta { id: "C07", level: "model_checking", assumptions: &[] },
        imports::c07,
        "as C05, Java and C#",
    ),
    (
        Meta { id: "C08", level: "model_checking", assumptions: &[] },
        imports::c08,
        "every body history up to the bound x language x file configuration x formatting configuration; outcome = distinct file",
    ),
    (
        Meta { id: "C09", level: "model_checking", assumptions: &["the readers for the target languages are right; validated against real compilers and interpreters by tools/validate_readers.py"] },
        quoting::c09,
        "every text up to the bound, every split, every language; a text is a state; outcome = distinct rendered literal",
    ),
    (
        Meta { id: "C10", level: "model_checking", assumptions: &["as C09"] },
        quoting::c10,
        "every sequence of literal pieces and interpolations up to the bound; outcome = distinct rendered literal",
    ),
    (
        Meta { id: "C11", level: "model_checking", assumptions: &["as C09"] },
        quoting::c11,
        "every pair of outer and inner text up to the bound; outcome = distinct inner text",
    ),
    (
        Meta { id: "C12", level: "model_checking", assumptions: &[] },
        flows::c12,
        "every item sequence up to the bound; outcome = distinct callback trace of a well-nested stream",
    ),
    (
        Meta { id: "C13", level: "model_checking", assumptions: &[] },
        flows::c13,
        "every history x configuration x writer; outcome = distinct text",
    ),
    (
        Meta { id: "C14", level: "fault_enumeration", assumptions: &[] },
        flows::c14,
        "every history x every fault position and kind; non-trivial = distinct fault-free outputs the faults were injected into",
    ),
    (
        Meta { id: "C20", level: "model_checking", assumptions: &[] },
        values::c20,
        "every value x wrapper x context; a value is a state, a rendering a transition; outcome = distinct rendered text",
    ),
    (
        Meta { id: "C21", level: "model_checking", assumptions: &[] },
        values::c21,
        "every list of lines up to the bound x helper x source x depth x indentation x place; outcome = distinct rendered text",
    ),
    (
        Meta { id: "C23", level: "model_checking", assumptions: &[] },
        values::c23,
        "every history up to the bound x language x configuration x entry point; outcome = distinct rendered text",
    ),
    (
        Meta { id: "C15", level: "model_checking", assumptions: &["rustc expands and compiles every generated template on its own: templates in one crate do not influence each other"] },
        macros::c15,
        "every template up to the bound, compiled with the macros under test; a template is a state, an item of it executed for one input a transition; outcome = distinct rendered text or rejection",
    ),
    (
        Meta { id: "C16", level: "model_checking", assumptions: &["rustc expands and compiles every generated template on its own: templates in one crate do not influence each other"] },
        macros::c16,
        "every template up to the bound, compiled with the macros under test; a template is a state, an item of it executed for one input a transition; outcome = distinct rendered text or rejection",
    ),
    (
        Meta { id: "C17", level: "model_checking", assumptions: &["rustc expands and compiles every generated template on its own: templates in one crate do not influence each other"] },
        macros::c17,
        "every template x input up to the bound, compiled with the macros under test; a template is a state, an item of it executed for one input a transition; outcome = distinct rendered text or rejection",
    ),
    (
        Meta { id: "C18", level: "model_checking", assumptions: &["rustc expands and compiles every generated template on its own: templates in one crate do not influence each other"] },
        macros::c18,
        "every template x entry point x surroundings up to the bound, compiled with the macros under test; a template is a state, an item of it executed for one input a transition; outcome = distinct rendered text or rejection",
    ),
    (
        Meta { id: "C19", level: "model_checking", assumptions: &["rustc expands and compiles every generated template on its own: templates in one crate do not influence each other"] },
        macros::c19,
        "every string section up to the bound, compiled with the macros under test; a template is a state, an item of it executed for one input a transition; outcome = distinct rendered text or rejection",
    ),
    (
        Meta { id: "C22", level: "model_checking", assumptions: &["rustc expands and compiles every generated template on its own: templates in one crate do not influence each other"] },
        macros::c22,
        "every token sequence up to the bound, compiled with the macros under test; a template is a state, an item of it executed for one input a transition; outcome = distinct rendered text or rejection",
    ),
    (
        Meta { id: "C24", level: "model_checking", assumptions: &["rustc expands and compiles every generated template on its own: templates in one crate do not influence each other", "the installed stable compiler stands for every compiler without proc_macro_span"] },
        macros::c24,
        "every template up to the bound, compiled by a stable compiler with the macros under test; a template is a state, an item of it executed for one input a transition; outcome = distinct rendered text or rejection",
    ),
    (
        Meta { id: "C25", level: "model_checking", assumptions: &[] },
        compare::c25,
        "every value up to the bound; comparing two of them is a transition; outcome = distinct value",
    ),
    (
        Meta { id: "C26", level: "model_checking", assumptions: &["rustc expands and compiles every generated template on its own: templates in one crate do not influence each other"] },
        extra::c26,
        "every malformed piece x place x macro up to the bound, compiled with the macros under test; a template is a state; outcome = rejection or acceptance",
    ),
    (
        Meta { id: "C27", level: "model_checking", assumptions: &["rustc expands and compiles every generated template on its own: templates in one crate do not influence each other"] },
        extra::c27,
        "every name x template up to the bound, compiled with the macros under test; a template is a state, an operation of it a transition; outcome = distinct rendered text",
    ),
    (
        Meta { id: "C28", level: "model_checking", assumptions: &["what a rendering comes to on its own is decided by the other checks; here it is the reference"] },
        reent::c28,
        "every point of every rendering up to the bound x what happens there, every schedule of two renderings up to the bound; a rendering or schedule is a state, a point of it a transition; outcome = distinct result",
    ),
];

fn main() {
    install_panic_hook();
    let mut args = std::env::args().skip(1);
    let id = args.next().expect("property id");
    if id == "dump-literals" {
        quoting::dump();
        return;
    }
    let mut o = Opts {
        tier: if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        only: None,
    };
    while let Some(a) = args.next() {
        match a.as_str() {
            "quick" => o.tier = Tier::Quick,
            "thorough" => o.tier = Tier::Thorough,
            "--only" => o.only = args.next(),
            other => panic!("unknown argument {other}"),
        }
    }
    let Some((meta, f, rule)) = CHECKS.iter().find(|c| c.0.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let start = Instant::now();
    watch(meta.id, o.tier);
    let st = f(&o);
    std::process::exit(finish(meta, &o, &st, start, rule));
}
