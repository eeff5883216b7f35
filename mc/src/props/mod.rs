//! One module per property: the finite space of executions and the oracle.
use crate::engine::Family;
use crate::obs::*;
use crate::template::*;
use serde_json::{json, Value};

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod decls;
mod long;
mod motion;
mod ui;

pub type Plan = (Vec<Family>, Vec<String>);

const ALL: &[(&str, fn(bool) -> Plan)] = &[
    ("C01", c01::plan),
    ("C02", c02::plan),
    ("C03", c03::plan),
    ("C04", c04::plan),
    ("C05", c05::plan),
    ("C06", c06::plan),
    ("C07", c07::plan),
    ("C08", c08::plan),
    ("C09", c09::plan),
    ("C10", c10::plan),
    ("C11", c11::plan),
    ("C12", c12::plan),
    ("C13", c13::plan),
    ("C14", c14::plan),
    ("C15", c15::plan),
    ("C16", c16::plan),
    ("C17", c17::plan),
    ("C18", c18::plan),
    ("C19", c19::plan),
    ("C20", c20::plan),
    ("C21", c21::plan),
    ("C22", c22::plan),
    ("C23", c23::plan),
    ("C24", c24::plan),
    ("C25", c25::plan),
    ("C26", c26::plan),
];

pub fn ids() -> Vec<&'static str> {
    ALL.iter().map(|p| p.0).collect()
}

pub fn families(id: &str, tier: &str) -> Option<Plan> {
    ALL.iter()
        .find(|p| p.0 == id)
        .map(|p| (p.1)(tier == "thorough"))
}

pub fn assumed(lines: &[&str]) -> Vec<String> {
    lines.iter().map(|s| s.to_string()).collect()
}

/// All histories of `depth` values (every prefix is checked on the way) on every document.
pub fn value_histories(
    name: &str,
    docs: Vec<Doc>,
    values: Vec<Value>,
    depth: usize,
) -> Family {
    let n = values.len() as u64;
    let per_doc = n.pow(depth as u32);
    let count = per_doc * docs.len() as u64;
    let htmls: Vec<String> = docs.iter().map(|d| d.html()).collect();
    Family::new(name, count, move |index, ctx| {
        let d = (index / per_doc) as usize;
        let order = digits(index % per_doc, n, depth);
        ctx.begin(&htmls[d]);
        let mut view = view(&htmls[d], "")?;
        for i in order {
            let step = Step::new(values[i].clone());
            step.run(&mut view)?;
            check_rendering(&view, &docs[d], &values[i], ctx, &step)?;
        }
        Ok(())
    })
}

pub fn check_rendering(
    view: &bumaga::View,
    doc: &Doc,
    value: &Value,
    ctx: &mut crate::engine::Ctx,
    step: &Step,
) -> Result<(), String> {
    let reference = Reference {
        root: value,
        translate: &|s| s.to_string(),
    };
    let expected = reference.body(doc);
    let mut seen = String::new();
    let result = compare_tree(&view.body(), &expected, &mut seen);
    ctx.step(&step.label(), &seen);
    result
}

/// Values which are easily taken for each other, in every order and at different places.
pub fn alike(thorough: bool) -> Family {
    let long = |c: char| format!("{}{c}", "ab".repeat(100));
    let single = vec![
        json!(null),
        json!("null"),
        json!(""),
        json!(" "),
        json!("  "),
        json!(false),
        json!("false"),
        json!(0),
        json!(0.0),
        json!("0"),
        json!(true),
        json!("true"),
        json!(1),
        json!(1.0),
        json!("1"),
        json!("1.0"),
        json!(-1),
        json!(9007199254740992u64),
        json!(9007199254740993u64),
        json!(9007199254740992.0),
        json!(u64::MAX),
        json!(u64::MAX - 1),
        json!(i64::MIN),
        json!(i64::MIN + 1),
        json!(0.1),
        json!(0.10000000000000002),
        json!(1e30),
        json!(1.0000000000000002e30),
        json!("a"),
        json!("A"),
        json!(" a"),
        json!("a "),
        json!("á"),
        json!("a\u{301}"),
        json!(long('x')),
        json!(long('y')),
        json!("[array]"),
        json!("{object}"),
        json!([]),
        json!([null]),
        json!([1]),
        json!([1.0]),
        json!([true]),
        json!({}),
        json!({"k": null}),
        json!({"k": 1}),
        json!({"k": 1.0}),
        json!({"0": 1}),
    ];
    let docs = vec![
        Doc::new(vec![
            el("p", vec![bind("t", "{a}"), flag("f", "a"), bind("u", "-{a.k}-{a.0}")], vec![text("{a}"), el("z", vec![], vec![]), text("{a | kind}{a | wrap}")]),
            el("q", vec![when("a")], vec![text("{a.k}")]),
            el("r", vec![unless("a.0")], vec![text("{a.0}")]),
            el("s", vec![repeat("i", 2, "a"), bind("v", "{i}"), flag("g", "i")], vec![text("{i | kind}")]),
        ]),
        Doc::new(vec![
            el("p", vec![repeat("i", 2, "b"), bind("v", "{i.k}"), flag("g", "i.k")], vec![text("{i.k}"), el("x", vec![when("i.k")], vec![])]),
            el("q", vec![alias("n", "o.m")], vec![text("{n.k}"), el("y", vec![unless("n.k")], vec![text("{n}")])]),
            text("{b | kind}{b | len}{o.m.k | wrap}"),
        ]),
    ];
    let values = single.iter().map(|v| json!({"a": v, "b": [{"k": v}, {"k": 5}], "o": {"m": {"k": v}}})).collect();
    value_histories("alike", docs, values, if thorough { 3 } else { 2 })
}

/// Objects with every combination of the fields; `None` leaves a field out.
pub fn objects(fields: &[(&str, Vec<Option<Value>>)]) -> Vec<Value> {
    let mut out = vec![json!({})];
    for (name, choices) in fields {
        let mut next = vec![];
        for o in &out {
            for c in choices {
                let mut o = o.clone();
                if let Some(v) = c {
                    o[name] = v.clone();
                }
                next.push(o);
            }
        }
        out = next;
    }
    out
}

pub fn some(values: &[Value]) -> Vec<Option<Value>> {
    values.iter().cloned().map(Some).collect()
}

/// All arrays of the items up to a length.
pub fn arrays(items: &[Value], max: usize) -> Vec<Value> {
    let mut out = vec![json!([])];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for a in &last {
            for i in items {
                let mut a: Vec<Value> = a.clone();
                a.push(i.clone());
                next.push(a);
            }
        }
        out.extend(next.iter().map(|a| json!(a)));
        last = next;
    }
    out
}
