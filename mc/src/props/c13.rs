use super::ui::*;
use super::*;
use bumaga::{Fragment, View};
use std::rc::Rc;
use taffy::NodeId;

#[derive(Clone, Debug, PartialEq)]
enum S {
    All,
    Type(&'static str),
    Id(&'static str),
    Class(&'static str),
    /// name, operator, value
    Attr(&'static str, &'static str, &'static str),
    Hover,
    Active,
    Focus,
}

type Compound = Vec<S>;

/// First compound and the following ones with their combinators.
#[derive(Clone, Debug)]
struct Complex(Compound, Vec<(char, Compound)>);

type Selector = Vec<Complex>;

fn print_simple(s: &S) -> String {
    match s {
        S::All => "*".to_string(),
        S::Type(t) => t.to_string(),
        S::Id(i) => format!("#{i}"),
        S::Class(c) => format!(".{c}"),
        S::Attr(n, "", _) => format!("[{n}]"),
        S::Attr(n, op, v) => format!("[{n}{op}\"{v}\"]"),
        S::Hover => ":hover".to_string(),
        S::Active => ":active".to_string(),
        S::Focus => ":focus".to_string(),
    }
}

fn print_compound(c: &Compound) -> String {
    c.iter().map(print_simple).collect()
}

fn print(s: &Selector) -> String {
    s.iter()
        .map(|c| {
            let mut out = print_compound(&c.0);
            for (op, c) in &c.1 {
                out.push_str(&format!(" {op} {}", print_compound(c)));
            }
            out
        })
        .collect::<Vec<_>>()
        .join(", ")
}

/// A shown element with its place.
struct Shown {
    node: NodeId,
    tag: String,
    attrs: std::collections::HashMap<String, String>,
    parent: Option<Rc<Shown>>,
    before: Option<Rc<Shown>>,
    state: State,
    aspects: Vec<(&'static str, String)>,
}

fn shown(f: &Fragment, parent: Option<Rc<Shown>>, before: Option<Rc<Shown>>, sim: &Sim, out: &mut Vec<Rc<Shown>>) -> Rc<Shown> {
    let mut aspects = vec![];
    style_aspects(f, &mut aspects);
    let me = Rc::new(Shown {
        node: f.node,
        tag: f.tag.clone(),
        attrs: f.attrs.clone(),
        parent,
        before,
        state: sim.state(f.node),
        aspects,
    });
    out.push(me.clone());
    let mut last = None;
    // texts are no siblings
    for c in f.children().into_iter().filter(|c| c.text.is_none()) {
        last = Some(shown(&c, Some(me.clone()), last, sim, out));
    }
    me
}

fn matches_simple(s: &S, e: &Shown) -> bool {
    let attr = |n: &str| e.attrs.get(n).map(|s| s.as_str());
    match s {
        S::All => true,
        S::Type(t) => e.tag == *t,
        S::Id(i) => attr("id") == Some(*i),
        S::Class(c) => attr("class").map(|v| v.split_ascii_whitespace().any(|w| w == *c)).unwrap_or(false),
        S::Attr(n, op, v) => match (attr(n), *op) {
            (None, _) => false,
            (Some(_), "") => true,
            (Some(a), "=") => a == *v,
            (Some(a), "~=") => a.split_ascii_whitespace().any(|w| w == *v),
            (Some(a), "|=") => a == *v || (a.starts_with(v) && a[v.len()..].starts_with('-')),
            (Some(a), "^=") => !v.is_empty() && a.starts_with(v),
            (Some(a), "$=") => !v.is_empty() && a.ends_with(v),
            (Some(a), "*=") => !v.is_empty() && a.contains(v),
            _ => unreachable!(),
        },
        S::Hover => e.state.hover,
        S::Active => e.state.active,
        S::Focus => e.state.focus,
    }
}

fn matches_compound(c: &Compound, e: &Shown) -> bool {
    c.iter().all(|s| matches_simple(s, e))
}

fn matches_complex(c: &Complex, e: &Rc<Shown>) -> bool {
    let mut compounds = vec![&c.0];
    compounds.extend(c.1.iter().map(|(_, c)| c));
    let mut at = e.clone();
    for i in (0..compounds.len()).rev() {
        if !matches_compound(compounds[i], &at) {
            return false;
        }
        if i > 0 {
            let next = if c.1[i - 1].0 == '>' { at.parent.clone() } else { at.before.clone() };
            match next {
                Some(n) => at = n,
                None => return false,
            }
        }
    }
    true
}

/// Declarations that move nothing, each showing in one aspect.
const MARKS: [(&str, &str); 26] = [
    ("border-top-left-radius: 3px;", "radius.0"),
    ("border-top-right-radius: 3px;", "radius.1"),
    ("border-bottom-right-radius: 3px;", "radius.2"),
    ("border-bottom-left-radius: 3px;", "radius.3"),
    ("border-top-color: #010203;", "border.top.color"),
    ("border-right-color: #010203;", "border.right.color"),
    ("border-bottom-color: #010203;", "border.bottom.color"),
    ("border-left-color: #010203;", "border.left.color"),
    ("background-color: #010203;", "bg0.color"),
    ("background-position: 3px;", "bg0.src"),
    ("background-image: url(\"m\");", "bg0.image"),
    ("opacity: 0.25;", "self_opacity"),
    ("text-align: end;", "font.align"),
    ("cursor: help;", "pointer"),
    ("justify-content: center;", "layout.justify_content"),
    ("justify-items: center;", "layout.justify_items"),
    ("justify-self: center;", "layout.justify_self"),
    ("align-content: center;", "layout.align_content"),
    ("align-items: center;", "layout.align_items"),
    ("align-self: center;", "layout.align_self"),
    ("flex-grow: 2;", "layout.flex_grow"),
    ("flex-basis: 3px;", "layout.flex_basis"),
    ("flex-direction: column;", "layout.flex_direction"),
    ("flex-wrap: wrap;", "layout.flex_wrap"),
    ("row-gap: 3px;", "layout.gap.row"),
    ("column-gap: 3px;", "layout.gap.column"),
];

/// What each mark shows where its rule applies.
fn calibrate() -> Result<Vec<String>, String> {
    let mut out = vec![];
    for (css, aspect) in MARKS {
        let read = |css: &str| -> Result<String, String> {
            let mut v = view("<html><body><div></div></body></html>", css)?;
            Step::new(json!({})).run(&mut v)?;
            let mut a = vec![];
            style_aspects(&v.body().children()[0], &mut a);
            Ok(a.into_iter().find(|a| a.0 == aspect).expect("aspect").1)
        };
        let set = read(&format!("div {{ {css} }}"))?;
        if set == read("")? {
            return Err(format!("rule div {{ {css} }} does not apply to <div>"));
        }
        out.push(set);
    }
    Ok(out)
}

fn judge(view: &View, sim: &Sim, rules: &[Selector], marks: &[String]) -> Result<String, String> {
    let mut all = vec![];
    shown(&view.body(), None, None, sim, &mut all);
    let mut seen = String::new();
    for e in &all {
        if e.tag.is_empty() {
            continue;
        }
        seen.push_str(&format!("{}", e.tag));
        for (rule, (i, mark)) in rules.iter().zip(marks.iter().enumerate()) {
            if e.tag == "body" && rule.iter().any(|c| !c.1.is_empty()) {
                continue;
            }
            let expected = rule.iter().any(|c| matches_complex(c, e));
            let aspect = MARKS[i].1;
            let is = &e.aspects.iter().find(|a| a.0 == aspect).expect("aspect").1 == mark;
            seen.push(if is { '1' } else { '0' });
            if is != expected {
                return Err(format!(
                    "rule {:?} {} to <{} {:?}> {:?} {:?}",
                    print(rule),
                    if is { "applies" } else { "does not apply" },
                    e.tag,
                    e.attrs,
                    e.state,
                    e.node
                ));
            }
        }
    }
    Ok(seen)
}

fn simples() -> Vec<S> {
    vec![
        S::All,
        S::Type("div"),
        S::Type("b"),
        S::Id("i"),
        S::Id("id"),
        S::Class("c"),
        S::Class("d"),
        S::Class("class"),
        S::Attr("a", "", ""),
        S::Attr("a", "=", "x"),
        S::Attr("a", "=", "a"),
        S::Attr("a", "~=", "x"),
        S::Attr("a", "|=", "x"),
        S::Attr("a", "^=", "x"),
        S::Attr("a", "$=", "x"),
        S::Attr("a", "*=", "x"),
        S::Attr("b", "", ""),
        S::Attr("b", "=", "1"),
        S::Hover,
        S::Active,
        S::Focus,
    ]
}

fn few() -> Vec<S> {
    vec![S::Type("b"), S::Id("i"), S::Class("c"), S::Attr("a", "=", "x"), S::Attr("a", "", ""), S::Hover]
}

fn one(c: Compound) -> Selector {
    vec![Complex(c, vec![])]
}

/// Type and `*` come first in a compound.
fn ordered(list: &[S]) -> bool {
    list.iter().skip(1).all(|s| !matches!(s, S::All | S::Type(_)))
}

fn compounds() -> Vec<Selector> {
    let mut out: Vec<Selector> = simples().into_iter().map(|s| one(vec![s])).collect();
    for a in simples() {
        for b in simples() {
            if ordered(&[a.clone(), b.clone()]) {
                out.push(one(vec![a.clone(), b]));
            }
        }
    }
    for a in few() {
        for b in few() {
            for c in few() {
                if ordered(&[a.clone(), b.clone(), c.clone()]) {
                    out.push(one(vec![a.clone(), b.clone(), c]));
                }
            }
        }
    }
    // attribute tests with awkward operands
    for op in ["=", "~=", "|=", "^=", "$=", "*="] {
        for v in ["", "x y", "y", "x-", "-", " ", "X", "x-y", "x-y-"] {
            out.push(one(vec![S::Attr("a", op, v)]));
        }
        for (n, v) in [("class", "c"), ("class", "c d"), ("id", "i"), ("b", "1"), ("missing", "")] {
            out.push(one(vec![S::Attr(n, op, v)]));
        }
    }
    out
}

fn chains() -> Vec<Selector> {
    let mut out = vec![];
    for op in ['>', '+'] {
        for a in simples() {
            for b in simples() {
                out.push(vec![Complex(vec![a.clone()], vec![(op, vec![b])])]);
            }
        }
        for op2 in ['>', '+'] {
            for a in few() {
                for b in few() {
                    for c in few() {
                        out.push(vec![Complex(
                            vec![a.clone()],
                            vec![(op, vec![b.clone()]), (op2, vec![c])],
                        )]);
                    }
                }
            }
        }
    }
    for (i, a) in few().into_iter().enumerate() {
        let f = few();
        // four compounds in a row, compounds of two in chains
        out.push(vec![Complex(
            vec![S::All],
            vec![('>', vec![a.clone()]), ('+', vec![f[(i + 1) % 6].clone()]), ('+', vec![S::All])],
        )]);
        out.push(vec![Complex(
            vec![a.clone(), S::Class("c")],
            vec![('>', vec![f[(i + 2) % 6].clone(), S::Attr("a", "", "")])],
        )]
        .into_iter()
        .filter(|c: &Complex| ordered(&c.0) && ordered(&c.1[0].1))
        .collect());
    }
    // long chains, one compound tells
    for n in [3usize, 4] {
        for ops in 0..(1u64 << n) {
            let ops: Vec<char> = digits(ops, 2, n).into_iter().map(|d| ['>', '+'][d]).collect();
            for (i, a) in few().into_iter().enumerate() {
                let at = (i + ops.iter().filter(|o| **o == '+').count()) % (n + 1);
                // what is above the body is not judged
                let first = S::Type(["div", "b"][i % 2]);
                let part = |k: usize| if k == at { vec![a.clone()] } else if k == 0 { vec![first.clone()] } else { vec![S::All] };
                out.push(vec![Complex(part(0), ops.iter().enumerate().map(|(k, op)| (*op, part(k + 1))).collect())]);
            }
        }
    }
    out.retain(|s| !s.is_empty());
    out
}

fn lists() -> Vec<Selector> {
    let mut out = vec![];
    let parts: Vec<Complex> = vec![
        Complex(vec![S::Id("i")], vec![]),
        Complex(vec![S::Class("c")], vec![]),
        Complex(vec![S::Type("b"), S::Hover], vec![]),
        Complex(vec![S::Attr("a", "*=", "x")], vec![]),
        Complex(vec![S::Class("c")], vec![('>', vec![S::Type("b")])]),
        Complex(vec![S::Type("b")], vec![('+', vec![S::Attr("a", "", "")])]),
        Complex(vec![S::Type("none")], vec![]),
    ];
    for a in &parts {
        for b in &parts {
            out.push(vec![a.clone(), b.clone()]);
            out.push(vec![a.clone(), b.clone(), parts[3].clone()]);
        }
    }
    out
}

/// The documents: everything fixed, bound, by flags, conditional and repeated.
fn docs() -> Vec<Doc> {
    vec![
        Doc::new(vec![
            div(
                vec![at("id", "i"), at("class", "c d"), at("a", "x")],
                vec![
                    text("{a}"),
                    el("b", vec![at("class", "c")], vec![text("b")]),
                    text("a"),
                    el("b", vec![at("a", "y x"), at("b", "1")], vec![el("b", vec![at("a", "x-y-z")], vec![])]),
                    el("b", vec![at("a", "xy"), at("class", " d\n c"), on("oninput", "x")], vec![]),
                ],
            ),
            el("b", vec![at("id", "id"), bind("a", "{a}")], vec![text("{i}")]),
            text("{c}"),
        ]),
        Doc::new(vec![
            div(
                vec![bind("id", "{i}"), bind("class", "{c}"), bind("a", "{a}")],
                vec![
                    el("b", vec![at("class", "c")], vec![]),
                    el("b", vec![bind("a", "{a}-y"), at("class", "d"), at("b", "1"), on("oninput", "x")], vec![
                        el("b", vec![at("a", "x"), bind("b", "{a}1")], vec![]),
                    ]),
                    el("b", vec![bind("class", "c {c}"), bind("id", "{j}"), at("b", "1"), at("a", "a x")], vec![]),
                ],
            ),
            el("b", vec![at("id", "i")], vec![]),
        ]),
        Doc::new(vec![
            div(
                vec![flag("id", "f"), flag("class", "g"), at("a", "x")],
                vec![
                    el("b", vec![flag("a", "f"), on("oninput", "x")], vec![]),
                    el("b", vec![at("class", "c"), flag("a", "g"), at("b", "1")], vec![]),
                    el("b", vec![flag("class", "f"), flag("b", "g"), at("a", "x")], vec![
                        el("b", vec![flag("id", "g"), at("class", "c"), at("a", "x")], vec![]),
                    ]),
                ],
            ),
            el("b", vec![at("a", "a")], vec![]),
        ]),
        Doc::new(vec![
            text("c"),
            el("b", vec![when("f"), at("class", "c"), at("a", "x")], vec![]),
            text("{a}"),
            el("b", vec![repeat("x", 3, "l"), bind("class", "{x}"), bind("a", "{x}"), on("oninput", "x")], vec![
                el("b", vec![unless("x"), at("id", "i")], vec![]),
                el("b", vec![when("g")], vec![]),
            ]),
            div(vec![at("id", "i"), when("g"), bind("a", "{a}")], vec![
                el("b", vec![], vec![]),
                el("b", vec![at("class", "c"), unless("f")], vec![]),
                el("b", vec![at("a", "x")], vec![]),
            ]),
        ]),
    ]
}

const LOOK: &str = "body { width: 60px; font-size: 1px; } div { width: 40px; height: 60px; } b { height: 10px; width: 30px; }\n";

fn acts() -> Vec<Act> {
    vec![
        show(json!({"a": "x", "i": "i", "c": "c", "l": ["c", "x"], "f": true})),
        show(json!({"a": "z x", "i": "j", "c": "d\tc", "j": "i", "l": ["", "d", "c d"], "g": 1})),
        show(json!({"a": "", "i": "", "c": "", "j": "", "l": [], "f": false, "g": 0})),
        show(json!({"f": "toggle"})),
        show(json!({"g": "toggle", "a": "yx", "c": "class"})),
        act(to(5.0, 5.0)),
        act(to(5.0, 15.0)),
        act(to(5.0, 25.0)),
        act(left_down()),
        act(left_up()),
    ]
}

fn family(name: &str, selectors: Vec<Selector>, depth: usize, start: Value) -> Family {
    let docs = docs();
    let htmls: Vec<String> = docs.iter().map(|d| d.html()).collect();
    let packs: Vec<Vec<Selector>> = selectors.chunks(MARKS.len()).map(|c| c.to_vec()).collect();
    let acts = acts();
    let n = acts.len() as u64;
    let histories = n.pow(depth as u32);
    let count = histories * packs.len() as u64 * htmls.len() as u64;
    let calibrated: std::sync::OnceLock<Result<Vec<String>, String>> = std::sync::OnceLock::new();
    Family::new(name, count, move |index, ctx| {
        let [h, p, d] = mixed(index, &[histories, packs.len() as u64, htmls.len() as u64])[..] else {
            unreachable!()
        };
        let marks = calibrated.get_or_init(calibrate).clone()?;
        let rules = &packs[p];
        let mut css = LOOK.to_string();
        for (rule, (mark, _)) in rules.iter().zip(MARKS) {
            css.push_str(&format!("{} {{ {mark} }}\n", print(rule)));
        }
        ctx.begin(&format!("{}\n{css}", htmls[d]));
        let mut view = view(&htmls[d], &css)?;
        let mut sim = Sim::default();
        let mut value = start.clone();
        let mut steps = vec![Step::new(value.clone())];
        for i in digits(h as u64, n, depth) {
            if let Some(v) = &acts[i].value {
                merge(&mut value, v);
            }
            steps.push(Step::new(value.clone()).events(acts[i].events.clone()));
        }
        for step in steps {
            step.run(&mut view)?;
            let seen = judge(&view, &sim, rules, &marks);
            sim.update(&view.body(), &step.events);
            ctx.step(&step.label(), &format!("{} {}", seen.as_deref().unwrap_or(""), step.value));
            seen?;
        }
        Ok(())
    })
}

/// The same selectors while one view goes through every pair of acts.
fn marathon(selectors: Vec<Selector>, k: usize) -> Family {
    let docs = docs();
    let htmls: Vec<String> = docs.iter().map(|d| d.html()).collect();
    let packs: Vec<Vec<Selector>> = selectors.chunks(MARKS.len()).map(|c| c.to_vec()).collect();
    let acts = acts();
    let order = long::tour(acts.len(), k);
    let calibrated: std::sync::OnceLock<Result<Vec<String>, String>> = std::sync::OnceLock::new();
    Family::new("marathon", (packs.len() * htmls.len()) as u64, move |index, ctx| {
        let [p, d] = mixed(index, &[packs.len() as u64, htmls.len() as u64])[..] else { unreachable!() };
        let marks = calibrated.get_or_init(calibrate).clone()?;
        let rules = &packs[p];
        let mut css = LOOK.to_string();
        for (rule, (mark, _)) in rules.iter().zip(MARKS) {
            css.push_str(&format!("{} {{ {mark} }}\n", print(rule)));
        }
        ctx.begin(&format!("{}\n{css}", htmls[d]));
        let mut view = view(&htmls[d], &css)?;
        let mut sim = Sim::default();
        let mut value = json!({});
        for (n, i) in order.iter().enumerate() {
            if let Some(v) = &acts[*i].value {
                merge(&mut value, v);
            }
            let step = Step::new(value.clone()).events(acts[*i].events.clone());
            step.run(&mut view)?;
            let seen = judge(&view, &sim, rules, &marks);
            sim.update(&view.body(), &step.events);
            ctx.step(&step.label(), &format!("{} {}", seen.as_deref().unwrap_or(""), step.value));
            seen.map_err(|e| format!("update {n}: {e}"))?;
        }
        Ok(())
    })
}

/// Elements with many classes and attributes, selectors of many parts.
fn crowds() -> Family {
    const N: usize = 12;
    const SEVERAL: [usize; 6] = [1, 2, 3, 5, 9, 12];
    // how many parts, which part does not fit (none for N), form
    Family::new("crowds", (SEVERAL.len() * (N + 1) * 7 * 2) as u64, move |index, ctx| {
        let [k, wrong, form, bound] = mixed(index, &[SEVERAL.len() as u64, N as u64 + 1, 7, 2])[..] else { unreachable!() };
        let k = SEVERAL[k];
        if wrong < N && wrong >= k {
            return Ok(());
        }
        let name = |i: usize| if i == wrong { format!("z{i}") } else { format!("k{i}") };
        let parts: Vec<String> = (0..k)
            .map(|i| match form {
                0 | 3 => format!(".{}", name(i)),
                1 => format!("[a{i}=\"{}\"]", name(i)),
                2 => format!("[a{i}=\"{}\"].{}", name(i), name(i)),
                4 => format!(".{}", if i == k - 1 && wrong < N { "k0" } else { "z" }),
                5 => format!("b.{}", name(i)),
                _ => format!("[class~={}]", name(i)),
            })
            .collect();
        // all of the parts, or one of them
        let (selector, matches) = match form {
            3 => (parts.iter().rev().cloned().collect::<String>(), wrong == N),
            4 => (parts.join(", "), wrong < N),
            5 => (parts.join(", "), k > 1 || wrong == N),
            _ => (parts.concat(), wrong == N),
        };
        let classes: Vec<String> = (0..N).map(|i| format!("k{i}")).collect();
        let mut attrs = String::new();
        for i in 0..N {
            attrs.push_str(&if bound == 1 { format!("@a{i}=\"{{v{i}}}\" ") } else { format!("a{i}=\"k{i}\" ") });
        }
        let class = if bound == 1 { "@class=\"{c}\"".to_string() } else { format!("class=\"{}\"", classes.join(" ")) };
        let html = format!("<html><body><b {attrs} {class}></b></body></html>");
        let css = format!("b {{ width: 3px; }} {selector} {{ width: 5px; }}");
        ctx.begin(&format!("{html}\n{css}"));
        let mut view = view(&html, &css)?;
        let mut full = json!({"c": classes.join(" ")});
        for i in 0..N {
            full[format!("v{i}")] = json!(format!("k{i}"));
        }
        let steps = if bound == 1 { vec![full.clone(), json!({}), full] } else { vec![json!({})] };
        for value in steps {
            let step = Step::new(value.clone());
            step.run(&mut view)?;
            let width = view.body().children()[0].size[0];
            ctx.step(&step.label(), &format!("{width}"));
            let fits = matches && (bound == 0 || value.get("c").is_some());
            let expected = if fits { 5.0 } else { 3.0 };
            if width != expected {
                return Err(format!("{selector:?} with {value}: width is {width}, expected {expected}"));
            }
        }
        Ok(())
    })
}

pub fn plan(thorough: bool) -> Plan {
    let full = json!({"a": "x", "i": "i", "c": "c", "j": "k", "l": ["c", "x"], "f": true, "g": true});
    let d = if thorough { 3 } else { 2 };
    // the selectors with most to go wrong, in longer histories
    let core: Vec<Selector> = {
        let all: Vec<Selector> = chains().into_iter().chain(lists()).collect();
        let n = MARKS.len() * if thorough { 4 } else { 1 };
        (0..n).map(|i| all[i * all.len() / n].clone()).collect()
    };
    (
        vec![
            family("compounds", compounds(), d, full.clone()),
            family("chains", chains(), d, full.clone()),
            family("lists", lists(), d, json!({})),
            marathon(if thorough { chains().into_iter().chain(lists()).collect() } else { core.clone() }, 2),
            crowds(),
            family("long", core, d + 1, json!({})),
        ],
        assumed(&[
            "attribute values, boxes and interaction states are judged by other properties",
            "no texts between siblings; `* > body` is not judged",
        ]),
    )
}
