use super::c08::{drag_acts, dragging, DRAG_BOXES};
use super::c09::{fields, FIELDS};
use super::ui::*;
use super::*;
use bumaga::{Fragment, InputEvent, View};

/// Arguments of the handlers; every kind of source.
const ARGS: [&str; 14] = [
    "Key",
    "$event",
    "{a}",
    "{o}",
    "{l}",
    "{o.k}",
    "{l.1}",
    "{missing}",
    "{a | kind | wrap}",
    "{l | rev | tail}",
    "{o.in}",
    "{o | len}",
    "{a | wrap | wrap}",
    "{l | tail | tail}",
];

fn values() -> Vec<Value> {
    vec![
        json!({}),
        json!({"a": null, "o": null, "l": null}),
        json!({"a": 1, "o": {"k": 2, "extra": [1, {"x": null}], "in": {"d": {"e": "f"}}}, "l": [1, {"k": 5, "z": "é"}, []]}),
        json!({"a": "text", "o": {"k": "", "other": {}}, "l": ["x"], "more": true}),
        json!({"a": {"deep": [1, 2]}, "o": [1, 2], "l": {"1": "one", "2": 2}}),
        json!({"a": [true, null], "o": "str", "l": [[1], [2, [3]], {"q": 1.5}, 4, 5, 6, 7]}),
        json!({"a": -2.5, "o": {}, "l": []}),
        json!({"a": false, "o": {"in": [1, 2, 3], "k": {"k": {"k": 1}}}, "l": [null, null]}),
    ]
}

fn lists(thorough: bool) -> Vec<Vec<&'static str>> {
    let mut out = vec![];
    for (length, n) in [(1usize, 14u64), (2, 14), (3, if thorough { 14 } else { 12 }), (4, if thorough { 12 } else { 4 })] {
        for i in 0..n.pow(length as u32) {
            out.push(digits(i, n, length).into_iter().map(|d| ARGS[d]).collect());
        }
    }
    for n in 5..=12 {
        for r in 0..ARGS.len() {
            out.push((0..n).map(|k| ARGS[(r + k * 3) % ARGS.len()]).collect());
        }
    }
    out
}

const PER_DOC: usize = 64;

/// Clicks in the middle of the 10x10 boxes of a row list.
fn clicks(points: &[[f32; 2]]) -> Vec<InputEvent> {
    points
        .iter()
        .flat_map(|p| [to(p[0], p[1]), left_down(), left_up()])
        .collect()
}

fn target(p: [f32; 2], at: [f32; 2], size: [f32; 2]) -> Value {
    json!({
        "position": p,
        "target": {"position": at, "size": size,
            "state": {"active": true, "hover": true, "focus": false, "checked": false}},
    })
}

fn argument_lists(thorough: bool) -> Family {
    let lists = lists(thorough);
    let values = values();
    let n = values.len() as u64;
    let docs: Vec<Vec<Vec<&'static str>>> = lists.chunks(PER_DOC).map(|c| c.to_vec()).collect();
    let count = docs.len() as u64 * n * n;
    Family::new("argument-lists", count, move |index, ctx| {
        let [d, i, j] = mixed(index, &[docs.len() as u64, n, n])[..] else {
            unreachable!()
        };
        let doc = Doc::new(
            docs[d]
                .iter()
                .map(|args| div(vec![on("onclick", &args.join(" "))], vec![]))
                .collect(),
        );
        let html = doc.html();
        ctx.begin(&html);
        let mut view = view(&html, "div { width: 10px; height: 10px; }")?;
        let first = Step::new(values[i].clone());
        first.run(&mut view)?;
        ctx.step(&first.label(), "");
        let points: Vec<[f32; 2]> =
            (0..docs[d].len()).map(|k| [5.0, k as f32 * 10.0 + 5.0]).collect();
        let step = Step::new(values[j].clone()).events(clicks(&points));
        let output = step.run(&mut view)?;
        let reference = Reference {
            root: &values[j],
            translate: &|s| s.to_string(),
        };
        let body = reference.body(&doc);
        let expected: Vec<Value> = body
            .kids
            .iter()
            .zip(&points)
            .map(|(node, p)| {
                let event = target(*p, [0.0, p[1] - 5.0], [10.0, 10.0]);
                message(&node.handlers["onclick"], &event)
            })
            .collect();
        ctx.step(&step.label(), &json!(output.messages).to_string());
        same_values(&output.messages, &expected)
    })
}

fn same_values(seen: &[Value], expected: &[Value]) -> Result<(), String> {
    for (i, (a, b)) in seen.iter().zip(expected).enumerate() {
        if a != b {
            return Err(format!("message {i} is {a}, expected {b}"));
        }
    }
    if seen.len() != expected.len() {
        return Err(format!("{} messages, expected {}", seen.len(), expected.len()));
    }
    Ok(())
}

/// Handlers inside repeats, aliases, conditions and templates.
fn scoped() -> Vec<Doc> {
    let inner = || {
        vec![
            el("b", vec![on("onclick", "Item {i} {o} $event")], vec![]),
            el("b", vec![on("onclick", "{i.k} {i.k} {j}"), when("i.k")], vec![]),
            el("b", vec![on("onclick", "Sub {s} {i}"), repeat("s", 3, "i.l")], vec![]),
            el("b", vec![on("onclick", "Rev {s} {i | len}"), repeat("s", 2, "i.l | rev")], vec![]),
            el("b", vec![on("onclick", "Alias {z} {z.k}"), alias("z", "i.o")], vec![]),
        ]
    };
    vec![
        Doc::new(vec![
            el("b", vec![on("onclick", "Head {l} {i}")], vec![]),
            div(vec![repeat("i", 3, "l")], inner()),
            el("b", vec![on("onclick", "Foot {l.0.k} {i}")], vec![]),
        ]),
        Doc::new(vec![div(
            vec![repeat("j", 2, "m")],
            vec![div(vec![repeat("i", 3, "j")], inner())],
        )]),
        Doc {
            templates: vec![
                ("row".to_string(), div(vec![], inner())),
                ("cell".to_string(), el("b", vec![on("onclick", "Cell {x} {x.k}")], vec![])),
            ],
            body: vec![
                link("row", vec![alias("i", "l.0")]),
                link("row", vec![repeat("i", 2, "l")]),
                link("cell", vec![alias("x", "o")]),
                link("cell", vec![repeat("x", 2, "l"), at("v", "1")]),
                link("cell", vec![alias("x", "l.1.o"), when("o")]),
            ],
        },
    ]
}

fn scoped_values() -> Vec<Value> {
    let full = json!({"k": 1, "l": [1, {"q": 2}, [3]], "o": {"k": "in", "z": []}, "x": "only"});
    let other = json!({"k": {"k": 0}, "l": ["p", "q", "r", "s"], "o": "text"});
    let l = [
        json!([]),
        json!([full, other, 5]),
        json!([other, full]),
        json!([null, {"k": 0}, {"k": "x", "l": {}}]),
        json!([[1, 2], "str", {"l": [[]]}, full]),
    ];
    let mut out = vec![json!({}), json!({"l": {"0": full}, "o": other})];
    for (i, a) in l.iter().enumerate() {
        out.push(json!({"l": a, "o": {"k": i, "y": [a]}, "m": [l[(i + 1) % 5], l[(i + 3) % 5]]}));
    }
    out.push(json!({"l": l[1], "m": [l[2]], "i": "root", "j": ["root"]}));
    out
}

/// Shown boxes with their handlers, in order.
fn handlers<'n>(f: &Fragment, n: &'n Node, out: &mut Vec<([f32; 2], [f32; 2], &'n Vec<Val>)>) -> Result<(), String> {
    if let Some(h) = n.handlers.get("onclick") {
        out.push((f.position, f.size, h));
    }
    let kids = f.children();
    if kids.len() != n.kids.len() {
        return Err(format!("{} children shown, expected {}", kids.len(), n.kids.len()));
    }
    for (f, n) in kids.iter().zip(&n.kids) {
        handlers(f, n, out)?;
    }
    Ok(())
}

fn click_all(view: &mut View, doc: &Doc, value: &Value, ctx: &mut crate::engine::Ctx) -> Result<(), String> {
    let reference = Reference {
        root: value,
        translate: &|s| s.to_string(),
    };
    let body = reference.body(doc);
    let mut boxes = vec![];
    handlers(&view.body(), &body, &mut boxes)?;
    let points: Vec<[f32; 2]> = boxes
        .iter()
        .map(|(at, size, _)| [at[0] + size[0] / 2.0, at[1] + size[1] / 2.0])
        .collect();
    let step = Step::new(value.clone()).events(clicks(&points));
    let output = step.run(view)?;
    ctx.step(&step.label(), &json!(output.messages).to_string());
    let expected: Vec<Value> = boxes
        .iter()
        .zip(&points)
        .map(|((at, size, h), p)| message(h, &target(*p, *at, *size)))
        .collect();
    same_values(&output.messages, &expected)
}

fn scopes(depth: usize) -> Family {
    let docs = scoped();
    let values = scoped_values();
    let n = values.len() as u64;
    let per_doc = n.pow(depth as u32);
    Family::new("scopes", per_doc * docs.len() as u64, move |index, ctx| {
        let doc = &docs[(index / per_doc) as usize];
        let html = doc.html();
        ctx.begin(&html);
        let mut view = view(&html, "b { width: 10px; height: 10px; }")?;
        for i in digits(index % per_doc, n, depth) {
            let step = Step::new(values[i].clone());
            step.run(&mut view)?;
            click_all(&mut view, doc, &values[i], ctx)?;
        }
        Ok(())
    })
}

const EVERY: [&str; 18] = [
    "onmouseenter", "onmouseleave", "onmousemove", "onmousedown", "onmouseup", "onclick", "oncontextmenu",
    "onfocus", "onblur", "onkeydown", "onkeyup", "oninput", "ondragstart", "ondragend", "ondragenter",
    "ondragleave", "ondragover", "ondrop",
];

/// Adds a bound argument after the event argument of every handler.
fn extended(t: &T) -> T {
    match t {
        T::El(tag, attrs, kids) => T::El(
            tag.clone(),
            attrs
                .iter()
                .map(|a| match a {
                    A::On(e, args) => {
                        let mut args = args.clone();
                        args.push(Arg::B(p("v")));
                        A::On(e.clone(), args)
                    }
                    a => a.clone(),
                })
                .collect(),
            kids.iter().map(extended).collect(),
        ),
        t => t.clone(),
    }
}

/// Every kind of message with a value that changes in the very update of its event.
fn every_event(name: &str, doc: Doc, css: &str, acts: Vec<Act>, depth: usize) -> Family {
    let doc = Doc {
        templates: doc.templates.clone(),
        body: doc.body.iter().map(extended).collect(),
    };
    let html = doc.html();
    let css = format!("{CSS}{css}");
    let vs = [json!(1), json!({"a": [1], "b": {}}), json!(null), json!("s")];
    let n = acts.len() as u64;
    Family::new(name, n.pow(depth as u32), move |index, ctx| {
        ctx.begin(&html);
        let mut view = view(&html, &css)?;
        let mut sim = Sim::default();
        let mut value = json!({"v": "first"});
        run(&mut view, &mut sim, &Step::new(value.clone()), &EVERY, false, ctx)?;
        for (k, i) in digits(index, n, depth).into_iter().enumerate() {
            let act = &acts[i];
            if let Some(v) = &act.value {
                merge(&mut value, v);
            }
            value["v"] = vs[(k + i) % vs.len()].clone();
            let step = Step::new(value.clone()).events(act.events.clone());
            let output = run(&mut view, &mut sim, &step, &EVERY, false, ctx)?;
            for m in &output.messages {
                let args = m.as_object().and_then(|o| o.values().next()).cloned().unwrap_or(Value::Null);
                if args[2] != value["v"] {
                    return Err(format!("message {m} without the present value {}", value["v"]));
                }
            }
        }
        Ok(())
    })
}

pub fn plan(thorough: bool) -> Plan {
    let d = if thorough { 1 } else { 0 };
    let mut drags = drag_acts();
    drags.push(show(json!({"u": "toggle"})));
    let field_acts = vec![
        act(to(10.0, 10.0)),
        act(to(45.0, 15.0)),
        act(left_down()),
        act(left_up()),
        act(right_up()),
        act(key_down()),
        act(key_up()),
        act(char_in()),
        show(json!({"sb": "left: 0;"})),
    ];
    let keys = every_key();
    let families = vec![
        argument_lists(thorough),
        scopes(2 + d),
        every_event("drag-events", dragging(), DRAG_BOXES, drags, 4 + d),
        every_event("field-events", fields(), FIELDS, field_acts, 4 + d),
        keys,
    ];
    (families, assumed(&["event arguments in the place of the key are only judged as `{object}`"]))
}

/// Every key and a range of characters.
fn every_key() -> Family {
    use bumaga::Keys::*;
    let keys = [
        Unknown, Escape, Backspace, Delete, Insert, Enter, Tab, ArrowUp, ArrowDown, ArrowLeft, ArrowRight, End,
        Home, PageDown, PageUp, Alt, CapsLock, Ctrl, Shift,
    ];
    let mut events: Vec<(InputEvent, &'static str, Value)> = vec![];
    for k in keys {
        events.push((InputEvent::KeyDown(k), "onkeydown", json!(format!("{k:?}"))));
        events.push((InputEvent::KeyUp(k), "onkeyup", json!(format!("{k:?}"))));
    }
    for c in (0..0x250u32).chain(0x1F600..0x1F610).filter_map(char::from_u32) {
        events.push((InputEvent::Char(c), "oninput", json!(c.to_string())));
    }
    let doc = Doc::new(vec![el("input", listen("a", true, false), vec![])]);
    let html = doc.html();
    Family::new("keys", events.len() as u64, move |index, ctx| {
        ctx.begin(&html);
        let mut view = view(&html, "input { width: 10px; height: 10px; }")?;
        let (event, kind, expected) = &events[index as usize];
        Step::new(json!({})).run(&mut view)?;
        let step = Step::new(json!({})).events(vec![to(5.0, 5.0), left_down(), *event]);
        let output = step.run(&mut view)?;
        ctx.step(&step.label(), &json!(output.messages).to_string());
        let last = output.messages.last().cloned().unwrap_or(Value::Null);
        let key = if *kind == "oninput" { "char" } else { "key" };
        if &last[*kind][1][key] != expected {
            return Err(format!("message {last}, expected {kind} with {expected}"));
        }
        Ok(())
    })
}
