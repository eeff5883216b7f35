use super::ui::*;
use super::*;
use crate::engine::{order, seeded};
use bumaga::{InputEvent, View};
use std::collections::BTreeSet;

#[derive(Clone)]
struct World {
    name: &'static str,
    doc: Doc,
    css: String,
    first: Value,
    /// change of the value, events and time
    moves: Vec<(Value, Vec<InputEvent>, f32)>,
    ids: Vec<&'static str>,
}

fn shows(v: Value) -> (Value, Vec<InputEvent>, f32) {
    (v, vec![], 0.0)
}
fn does(e: Vec<InputEvent>) -> (Value, Vec<InputEvent>, f32) {
    (json!({}), e, 0.0)
}
fn waits(t: f32) -> (Value, Vec<InputEvent>, f32) {
    (json!({}), vec![], t)
}

/// Boxes with every handler, drag and drop, focus, and styles which follow.
fn desk() -> World {
    let css = "\
body { width: 60px; height: 40px; }
.a { position: absolute; left: 0; top: 0; width: 20px; height: 20px; }
.b { position: absolute; left: 5px; top: 5px; width: 10px; height: 10px; }
.d { position: absolute; left: 30px; top: 0; width: 30px; height: 30px; }
.e { position: absolute; left: 5px; top: 5px; width: 20px; height: 10px; }
.p { position: absolute; left: 15px; top: 10px; width: 25px; height: 10px; }
:hover { color: #ff0000; } div:hover { border-top-left-radius: 1px; cursor: pointer; }
:active { background-color: #00ff00; } :focus { opacity: 0.5; cursor: text; } .d:hover > input { left: 0; }
";
    let doc = Doc::new(vec![
        div(
            with(listen("a", false, false), vec![at("class", "a"), at("draggable", "true")]),
            vec![div(with(listen("b", false, false), vec![at("class", "b"), at("title", "t"), bind("k", "{p}")]), vec![])],
        ),
        div(
            with(listen("d", false, true), vec![at("class", "d"), at("id", "d")]),
            vec![el("input", with(listen("e", true, false), vec![at("class", "e"), at("id", "e")]), vec![])],
        ),
        div(with(listen("p", false, true), vec![at("class", "p"), when("p"), at("id", "p")]), vec![]),
    ]);
    World {
        name: "desk",
        doc,
        css: css.to_string(),
        first: json!({"p": true}),
        moves: vec![
            shows(json!({"p": false})),
            shows(json!({"p": true})),
            does(vec![to(7.0, 7.0)]),
            does(vec![to(17.0, 12.0)]),
            does(vec![to(37.0, 12.0)]),
            does(vec![to(45.0, 7.0), left_down(), left_up()]),
            does(vec![left_down()]),
            does(vec![left_up()]),
            does(vec![right_down(), right_up()]),
            does(vec![key_down(), char_in(), key_up()]),
            does(vec![to(-5.0, 7.0)]),
        ],
        ids: vec!["d", "e", "p", "a"],
    }
}

/// Variables, shorthands, inline styles, lists, classes, inheritance.
fn styles() -> World {
    let css = "\
.a { --x: 3px; --y: var(--x); --z: #010203; --w: var(--y); padding: var(--x) var(--y); color: var(--z); margin: var(--w); }
.b { --x: 5px; --u: var(--v); --v: var(--u); border: 1px solid var(--z); padding-left: var(--u); }
.c { padding: 1px 2px; padding-top: 4px; margin: 0 1px; background: #040506 url(\"i\") ; border-width: 2px; border-color: #070809; }
.d > p { font-size: 2em; width: var(--w); height: var(--y); background-color: var(--z); inset: var(--x); }
p { overflow: visible; font: 10px; gap: 1px 2px; border-radius: var(--x); }
[k] { opacity: 0.5; } [k=m] { --z: #0a0b0c; } #n { --w: 1px; --z: red; }
";
    let doc = Doc::new(vec![div(
        vec![bind("class", "{c} {d}"), bind("style", "{s}"), flag("k", "k"), bind("m", "{d}")],
        vec![
            el("p", vec![bind("k", "{k}"), bind("class", "{d}"), at("id", "n")], vec![text("ab{s}")]),
            el("p", vec![bind("class", "{d}"), bind("style", "--x: 7px; {s}")], vec![el("i", vec![at("class", "a b c d")], vec![text("t")])]),
        ],
    )]);
    World {
        name: "styles",
        doc,
        css: css.to_string(),
        first: json!({"c": "a", "d": "d", "s": "", "k": null}),
        moves: vec![
            shows(json!({"c": "a b"})),
            shows(json!({"c": "b c"})),
            shows(json!({"c": ""})),
            shows(json!({"d": "a"})),
            shows(json!({"d": "c d b"})),
            shows(json!({"k": "m"})),
            shows(json!({"k": null})),
            shows(json!({"s": "--z: #111213; --y: 6px; color: var(--z); width: var(--y);"})),
            shows(json!({"s": "--x: var(--w); padding: var(--x); padding-left: 9px;"})),
            shows(json!({"s": ""})),
        ],
        ids: vec!["n"],
    }
}

/// Several animations and transitions at once.
fn motion() -> World {
    let css = "\
@keyframes k { 0% { width: 0px; height: 10px; opacity: 0; padding: 1px 2px 3px 4px; } 50% { width: 7px; color: red; } 100% { width: 20px; opacity: 1; height: 30px; padding: 9px; } }
@keyframes l { 0% { width: 50px; margin: 1px; } 30% { margin: 2px 5px; border-width: 1px 2px; } 100% { width: 10px; color: blue; background-color: red; } }
@keyframes m { 0% { height: var(--h); } 100% { height: var(--g); left: 3px; top: var(--h); } }
div { --h: 4px; --g: 40px; width: 30px; height: 30px; font-size: 10px; }
.a { animation-name: k, l; animation-duration: 2s, 1s; animation-iteration-count: 1, 2; }
.b { animation: l 1s, m 3s, k 2s; }
.m { animation-name: m; animation-duration: 1s; animation-delay: 0.5s; }
.t { transition-property: width, height, color, margin-left, opacity; transition-duration: 1s, 2s, 1s, 1s, 3s; }
.w { width: 60px; height: 5px; color: red; margin: 9px; opacity: 0.25; }
.p { animation-play-state: paused; }
";
    let doc = Doc::new(vec![
        div(vec![bind("class", "{c} {w}")], vec![text("ab")]),
        div(vec![bind("class", "t {w}")], vec![el("p", vec![bind("class", "{c}")], vec![text("b")])]),
    ]);
    World {
        name: "motion",
        doc,
        css: css.to_string(),
        first: json!({"c": "", "w": ""}),
        moves: vec![
            shows(json!({"c": "a"})),
            shows(json!({"c": "b"})),
            shows(json!({"c": "a m"})),
            shows(json!({"c": "b p"})),
            shows(json!({"c": ""})),
            shows(json!({"w": "w"})),
            shows(json!({"w": ""})),
            (json!({"w": "w t"}), vec![], 0.25),
            waits(0.25),
            waits(0.6),
            waits(1.5),
        ],
        ids: vec![],
    }
}

/// Templates, repeats, conditions, aliases, images and ids.
fn structure() -> World {
    let doc = Doc {
        templates: vec![
            ("r".to_string(), el("r", vec![bind("id", "{i.n}"), alias("z", "i.t")], vec![text("{z}: {i.n}"), el("img", vec![bind("src", "{i.t}")], vec![])])),
            ("q".to_string(), el("q", vec![when("x"), alias("y", "x"), alias("z", "y")], vec![link("r", vec![repeat("i", 3, "l")]), text("{y}{z}")])),
            ("o".to_string(), el("o", vec![alias("i", "o"), alias("l", "o.l"), alias("x", "o.x")], vec![link("r", vec![]), link("q", vec![])])),
        ],
        body: vec![
            link("r", vec![repeat("i", 2, "l"), flag("f", "x"), bind("a", "{x}"), bind("b", "{y}")]),
            link("q", vec![]),
            link("o", vec![]),
            el("p", vec![unless("x"), at("id", "s"), on("onclick", "a {x} {l}")], vec![text("{x}{y}{l}")]),
        ],
    };
    let item = |n: &str, t: Value| json!({"n": n, "t": t});
    World {
        name: "structure",
        doc,
        css: "p { width: 20px; height: 20px; } r + q { padding: 3px; } img { width: 3px; height: 3px; } [f] > img { opacity: 0.5; }".to_string(),
        first: json!({"x": null, "y": "y", "l": [], "o": {"n": "o", "t": "u"}}),
        moves: vec![
            shows(json!({"x": "x"})),
            shows(json!({"x": null})),
            shows(json!({"x": ["k"]})),
            shows(json!({"l": [item("a", json!("s")), item("b", json!(1))]})),
            shows(json!({"l": [item("b", json!("s")), item("a", json!(null)), item("c", json!("c"))]})),
            shows(json!({"l": []})),
            shows(json!({"o": {"x": 1, "l": [item("e", json!("f"))], "n": "a"}})),
            shows(json!({"o": null})),
            shows(json!({"y": {"z": 1}})),
            does(vec![to(3.0, 3.0), left_down(), left_up()]),
        ],
        ids: vec!["a", "b", "c", "e", "o", "s"],
    }
}

fn repeats(m: &Value) -> bool {
    m.get("onmousemove").is_some() || m.get("ondragover").is_some()
}

fn observe(view: &View, ids: &[&str], shown: &mut String) {
    full(&view.body(), shown);
    write_tree(&view.body(), shown);
    for id in ids {
        let found = view.get_element_by_id(id);
        shown.push_str(&format!("{id}:{:?} ", found.map(|e| (e.tag.clone(), e.position))));
    }
}

/// Everything seen along a history, and what idle updates changed afterwards.
fn history(world: &World, html: &str, moves: &[usize]) -> Result<(Vec<(String, String)>, Vec<String>), String> {
    let mut seen = vec![];
    let mut view = view(html, &world.css)?;
    let mut value = world.first.clone();
    let mut step = Step::new(value.clone()).viewport(100.0, 100.0);
    for i in 0..=moves.len() {
        if i > 0 {
            let (change, events, time) = &world.moves[moves[i - 1]];
            merge(&mut value, change);
            step = Step::new(value.clone()).viewport(100.0, 100.0).events(events.clone()).time(*time);
        }
        let output = step.run(&mut view)?;
        let mut text = output_text(&output);
        observe(&view, &world.ids, &mut text);
        seen.push((step.label(), text));
    }
    // let everything settle
    let mut idle = vec![];
    let rest = Step::new(value.clone()).viewport(100.0, 100.0);
    for time in [0.0, 20.0, 20.0, 0.0, 0.0] {
        let step = rest.clone().time(time);
        let output = step.run(&mut view)?;
        let mut text = String::new();
        observe(&view, &world.ids, &mut text);
        text.push_str(&format!("{:?} {}", output.pointer, output.is_input_captured));
        if time == 0.0 {
            idle.push(text.clone());
            let more: Vec<_> = output.messages.iter().filter(|m| !repeats(m)).collect();
            if idle.len() > 1 && !more.is_empty() {
                return Err(format!("an idle update gives {more:?}"));
            }
        }
        seen.push((step.label(), text));
    }
    Ok((seen, idle))
}

fn twins(world: World, depth: usize, seeds: u64) -> Family {
    let n = world.moves.len() as u64;
    let html = world.doc.html();
    Family::new(world.name, n.pow(depth as u32), move |index, ctx| {
        ctx.begin(&html);
        let moves = digits(index, n, depth);
        let (first, idle) = seeded(1, || history(&world, &html, &moves))?;
        for (action, text) in &first {
            ctx.step(action, text);
        }
        if idle[1] != idle[2] {
            return Err(format!("an idle update changes {}", super::c11::difference(&idle[2], &idle[1])));
        }
        for seed in 2..=seeds {
            let (other, _) = seeded(seed, || history(&world, &html, &moves))?;
            for ((action, a), (_, b)) in first.iter().zip(&other) {
                ctx.step(&format!("seed {seed}: {action}"), b);
                if a != b {
                    return Err(format!("two views differ after {action}: {}", super::c11::difference(b, a)));
                }
            }
        }
        Ok(())
    })
}

/// Long histories: every pair of moves after each other in one view.
fn marathon(thorough: bool) -> Family {
    let worlds = [desk(), styles(), motion(), structure()];
    let seeds = if thorough { 16u64 } else { 3 };
    Family::new("marathon", worlds.len() as u64, move |index, ctx| {
        let world = &worlds[index as usize];
        let html = world.doc.html();
        ctx.begin(&html);
        let moves = super::long::tour(world.moves.len(), if thorough { 3 } else { 2 });
        let (first, idle) = seeded(1, || history(world, &html, &moves))?;
        for (action, text) in &first {
            ctx.step(action, text);
        }
        if idle[1] != idle[2] {
            return Err(format!("an idle update changes {}", super::c11::difference(&idle[2], &idle[1])));
        }
        for seed in 2..=seeds {
            let (other, _) = seeded(seed, || history(world, &html, &moves))?;
            for ((action, a), (_, b)) in first.iter().zip(&other) {
                ctx.step(&format!("seed {seed}: {action}"), b);
                if a != b {
                    return Err(format!("two views differ after {action}: {}", super::c11::difference(b, a)));
                }
            }
        }
        Ok(())
    })
}

/// One declaration of every property, relative to something if there is such a value.
fn relative(n: usize) -> Vec<String> {
    let mut by_property: Vec<(&str, Vec<String>)> = vec![];
    for d in super::decls::all() {
        match by_property.iter_mut().find(|p| p.0 == d.property) {
            Some(p) => p.1.push(d.css),
            None => by_property.push((d.property, vec![d.css])),
        }
    }
    let mut out = vec![];
    for (property, mut list) in by_property {
        if property == "color" {
            list.insert(0, "color: red;".to_string());
        }
        if property.ends_with("color") {
            list.insert(1, format!("{property}: currentcolor;"));
        }
        let rank = |css: &String| {
            ["em;", "currentcolor", "em ", "%", "vmin", "rem"].iter().position(|s| css.contains(s)).unwrap_or(9)
        };
        list.sort_by_key(rank);
        out.extend(list.into_iter().take(n));
    }
    out
}

/// Views with the same rule for an element in which several properties meet.
fn meeting(name: &'static str, rules: Vec<String>, seeds: u64) -> Family {
    let html = "<html><body><div>ab<p>c<i>d</i></p></div></body></html>";
    Family::new(name, rules.len() as u64, move |index, ctx| {
        let rule = &rules[index as usize];
        let css = format!("body {{ font-size: 10px; color: #0000ff; width: 90px; }} {rule}");
        ctx.begin(&format!("{html}\n{css}"));
        let mut seen: Option<String> = None;
        for seed in 1..=seeds {
            let text = seeded(seed, || -> Result<String, String> {
                let mut view = view(html, &css)?;
                let mut text = String::new();
                for time in [0.0, 0.5] {
                    let step = Step::new(json!({})).viewport(300.0, 200.0).time(time);
                    step.run(&mut view)?;
                    full(&view.body(), &mut text);
                }
                Ok(text)
            })?;
            ctx.step(&format!("seed {seed}"), &text);
            match &seen {
                None => seen = Some(text),
                Some(first) if *first != text => {
                    return Err(format!("two views differ: {}", super::c11::difference(&text, first)));
                }
                _ => {}
            }
        }
        Ok(())
    })
}

pub fn plan(thorough: bool) -> Plan {
    let seeds = if thorough { 8 } else { 4 };
    let orders: Vec<usize> = [2, 3]
        .iter()
        .map(|n| (1..=seeds).map(|s| order(s, *n)).collect::<BTreeSet<_>>().len())
        .collect();
    let depth = if thorough { 4 } else { 3 };
    let mut families: Vec<Family> = [desk(), styles(), motion(), structure()]
        .into_iter()
        .map(|w| twins(w, depth, seeds))
        .collect();
    families.push(twins(World { name: "motion with many seeds", ..motion() }, 2, if thorough { 256 } else { 32 }));
    families.push(twins(World { name: "styles with many seeds", ..styles() }, 2, if thorough { 256 } else { 32 }));
    families.push(marathon(thorough));
    let few = relative(if thorough { 3 } else { 1 });
    let mut pairs = vec![];
    for (i, a) in few.iter().enumerate() {
        for b in &few[..i] {
            pairs.push(format!("div {{ {a} {b} }}"));
        }
    }
    families.push(meeting("two declarations", pairs, 8));
    let all: Vec<String> = relative(3);
    let all: Vec<String> = ["div", "p", "div, p", "div, p, i"]
        .iter()
        .flat_map(|s| (0..3).map(|k| format!("{s} {{ {} }}", all.iter().skip(k).step_by(3).cloned().collect::<String>())).collect::<Vec<_>>())
        .collect();
    families.push(meeting("all declarations", all, if thorough { 1024 } else { 128 }));
    (
        families,
        vec![format!(
            "hash maps are seeded with {seeds} (32 or 256 on short histories) chosen seeds per history: a first map of 2 entries is walked in {} of 2 orders and one of 3 entries in {} of 6",
            orders[0], orders[1]
        )],
    )
}
