use super::ui::*;
use super::*;
use bumaga::{InputEvent, View};

const DESK: &str = "\
body { width: 60px; height: 40px; }
.a { position: absolute; left: 0; top: 0; width: 20px; height: 20px; }
.b { position: absolute; left: 5px; top: 5px; width: 10px; height: 10px; }
.d { position: absolute; left: 30px; top: 0; width: 30px; height: 30px; }
.e { position: absolute; left: 5px; top: 5px; width: 20px; height: 10px; }
.p { position: absolute; left: 15px; top: 10px; width: 25px; height: 10px; }
:hover { color: #ff0000; } div:hover { border-top-left-radius: 1px; cursor: pointer; }
:active { background-color: #00ff00; } :focus { opacity: 0.5; cursor: text; }
";

/// A draggable box with a child, a drop target with an input, and a box over both.
fn desk() -> Doc {
    Doc::new(vec![
        div(
            with(listen("a", false, false), vec![at("class", "a"), at("draggable", "true")]),
            vec![div(with(listen("b", false, false), vec![at("class", "b")]), vec![])],
        ),
        div(
            with(listen("d", false, true), vec![at("class", "d")]),
            vec![el("input", with(listen("e", true, false), vec![at("class", "e")]), vec![])],
        ),
        div(with(listen("p", false, true), vec![at("class", "p"), when("p")]), vec![]),
    ])
}

fn repeating(m: &Value) -> bool {
    m.get("onmousemove").is_some() || m.get("ondragover").is_some()
}

fn texts(m: &[Value]) -> String {
    m.iter()
        .map(|m| match m.as_object().and_then(|o| o.iter().next()) {
            Some((k, v)) => format!("{k} {}", v[0].as_str().unwrap_or("")),
            None => m.to_string(),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

/// Final state: what is shown one idle update later, capture, cursor, and who answers probes.
fn final_state(view: &mut View, value: &Value) -> Result<String, String> {
    let mut s = String::new();
    let o = Step::new(value.clone()).run(view)?;
    s.push_str(&output_text(&o));
    full(&view.body(), &mut s);
    let o = Step::new(value.clone()).events(vec![key_down(), left_up(), to(-50.0, -50.0)]).run(view)?;
    s.push_str(&output_text(&o));
    Ok(s)
}

fn cuts(name: &str, value: Value, events: Vec<InputEvent>, before: Vec<Vec<InputEvent>>, depth: usize) -> Family {
    let html = desk().html();
    let css = DESK.to_string();
    let n = events.len() as u64;
    let sequences = n.pow(depth as u32);
    let count = sequences * before.len() as u64;
    Family::new(name, count, move |index, ctx| {
        ctx.begin(&html);
        let before = &before[(index / sequences) as usize];
        let list: Vec<InputEvent> =
            digits(index % sequences, n, depth).into_iter().map(|i| events[i]).collect();
        let start = || -> Result<View, String> {
            let mut view = view(&html, &css)?;
            Step::new(value.clone()).events(before.clone()).run(&mut view)?;
            Ok(view)
        };
        let mut whole = start()?;
        let step = Step::new(value.clone()).events(list.clone());
        let output = step.run(&mut whole)?;
        let all = output.messages.clone();
        let last = (output.is_input_captured, final_state(&mut whole, &value)?);
        ctx.step(&format!("after {before:?}: {}", step.label()), &format!("{} {}", texts(&all), last.1.len()));
        // also with idle updates between
        for cut in 1..(1u64 << depth) {
            let idle = cut >> (depth - 1) & 1 == 1;
            let cut = cut & ((1 << (depth - 1)) - 1);
            if idle && (cut == 0 || (cut.count_ones() > 1 && cut.count_ones() as usize + 1 < depth)) {
                continue;
            }
            let mut parts: Vec<Vec<InputEvent>> = vec![vec![]];
            for (i, e) in list.iter().enumerate() {
                parts.last_mut().unwrap().push(*e);
                if i + 1 < depth && cut >> i & 1 == 1 {
                    parts.push(vec![]);
                    if idle {
                        parts.push(vec![]);
                    }
                }
            }
            same(&start, &value, &parts, &all, &last, ctx)?;
        }
        Ok(())
    })
}

/// The events in parts give what they gave in one update.
fn same(
    start: &impl Fn() -> Result<View, String>,
    value: &Value,
    parts: &[Vec<InputEvent>],
    all: &[Value],
    last: &(bool, String),
    ctx: &mut crate::engine::Ctx,
) -> Result<(), String> {
    let mut view = start()?;
    let mut messages = vec![];
    let mut captured = false;
    for part in parts {
        let output = Step::new(value.clone()).events(part.clone()).run(&mut view)?;
        captured = output.is_input_captured;
        messages.extend(output.messages);
    }
    let describe = format!("split as {parts:?}");
    ctx.step(&describe, &texts(&messages));
    let a: Vec<&Value> = all.iter().filter(|m| !repeating(m)).collect();
    let b: Vec<&Value> = messages.iter().filter(|m| !repeating(m)).collect();
    for (x, y) in a.iter().zip(&b) {
        if x != y {
            return Err(format!("{describe}: message {y}, in one update {x}"));
        }
    }
    if a.len() != b.len() {
        return Err(format!("{describe}: messages {}, in one update {}", texts(&messages), texts(&all)));
    }
    // only repetitions may come in addition
    let mut rest = messages.iter();
    for m in all {
        if !rest.any(|o| o == m) {
            return Err(format!("{describe}: no {m} in its place, messages {}", texts(&messages)));
        }
    }
    let state = (captured, final_state(&mut view, value)?);
    if &state != last {
        return Err(format!(
            "{describe}: another state afterwards, captured {} against {}: {}",
            state.0,
            last.0,
            difference(&state.1, &last.1)
        ));
    }
    Ok(())
}

/// Long sequences of events, in which every two (three) follow each other, in parts of a size.
fn long_parts(name: &str, events: Vec<InputEvent>, before: Vec<Vec<InputEvent>>, k: usize) -> Family {
    const SIZES: [usize; 10] = [1, 2, 3, 4, 5, 8, 13, 21, 34, 70];
    let html = desk().html();
    let order: Vec<InputEvent> = long::tour(events.len(), k).into_iter().map(|i| events[i]).collect();
    Family::new(name, before.len() as u64 * 4, move |index, ctx| {
        ctx.begin(&html);
        let m = mixed(index, &[before.len() as u64, 2, 2]);
        let value = if m[1] == 0 { json!({"p": true}) } else { json!({}) };
        let start = || -> Result<View, String> {
            let mut view = view(&html, DESK)?;
            Step::new(value.clone()).events(before[m[0]].clone()).run(&mut view)?;
            Ok(view)
        };
        let mut whole = start()?;
        let output = Step::new(value.clone()).events(order.clone()).run(&mut whole)?;
        let all = output.messages.clone();
        let last = (output.is_input_captured, final_state(&mut whole, &value)?);
        ctx.step("all at once", &texts(&all));
        for size in SIZES {
            let mut parts: Vec<Vec<InputEvent>> = vec![];
            for part in order.chunks(size) {
                parts.push(part.to_vec());
                if m[2] == 1 {
                    parts.push(vec![]);
                }
            }
            same(&start, &value, &parts, &all, &last, ctx)?;
        }
        Ok(())
    })
}

pub fn difference(a: &str, b: &str) -> String {
    let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| -> String {
        let from = (0..=at.min(s.len()).saturating_sub(30)).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
        s[from..].chars().take(90).collect()
    };
    format!("…{} against …{}", cut(a), cut(b))
}

pub fn plan(thorough: bool) -> Plan {
    let events = vec![
        to(2.0, 2.0),
        to(10.0, 10.0),
        to(17.0, 15.0),
        to(40.0, 10.0),
        to(32.0, 25.0),
        to(200.0, 200.0),
        left_down(),
        left_up(),
        right_down(),
        right_up(),
        key_down(),
        char_in(),
    ];
    let few: Vec<InputEvent> = [1usize, 2, 3, 5, 6, 7].iter().map(|i| events[*i]).collect();
    let before = vec![
        vec![],
        vec![to(10.0, 10.0), left_down()],
        vec![to(40.0, 10.0), left_down(), left_up()],
        vec![to(40.0, 10.0), right_down()],
    ];
    let d = if thorough { 1 } else { 0 };
    let families = vec![
        long_parts("long", events.clone(), before.clone(), if thorough { 3 } else { 2 }),
        cuts("splits", json!({"p": true}), events.clone(), before.clone(), 3 + d),
        cuts("splits-plain", json!({}), events, before.clone(), 3),
        cuts("splits-deep", json!({"p": true}), few, before, 4 + d),
    ];
    (families, assumed(&["one value, no elapsed time; styles by state change no boxes"]))
}
