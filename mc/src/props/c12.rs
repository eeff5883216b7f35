use super::c08::{drag_acts, dragging, DRAG_BOXES};
use super::c09::{fields, FIELDS};
use super::ui::*;
use super::*;

const STACK: &str = "\
body { width: 70px; height: 70px; }
.a { position: absolute; left: 0; top: 0; width: 40px; height: 40px; }
.b { position: absolute; left: 10px; top: 10px; width: 20px; height: 20px; }
.c { position: absolute; left: 20px; top: 20px; width: 40px; height: 40px; }
.i { position: absolute; left: 45px; top: 0; width: 20px; height: 20px; }
.t { position: absolute; left: 0; top: 50px; width: 20px; height: 20px; font-size: 8px; }
";

/// Stacked boxes with cursors from the value, a text and an image. The body takes no pointer events.
fn stack() -> Doc {
    Doc::new(vec![
        div(
            vec![at("n", "a"), bind("class", "a y {ca}")],
            vec![div(vec![at("n", "b"), bind("class", "b {cb}"), unless("nb")], vec![])],
        ),
        div(vec![at("n", "c"), bind("class", "c y {cc}")], vec![]),
        el("img", vec![at("n", "i"), at("src", "x.png"), bind("class", "i {ci}"), on("oninput", "x")], vec![]),
        div(vec![at("n", "t"), bind("class", "t {ct}")], vec![text("text")]),
    ])
}

pub fn plan(thorough: bool) -> Plan {
    let d = if thorough { 1 } else { 0 };
    let points = [
        to(5.0, 5.0),
        to(15.0, 15.0),
        to(25.0, 25.0),
        to(50.0, 50.0),
        to(50.0, 10.0),
        to(4.0, 54.0),
        to(100.0, 5.0),
    ];
    let mut cursors: Vec<Act> = points.iter().map(|p| act(*p)).collect();
    cursors.extend([
        show(json!({"ca": "c-pointer"})),
        show(json!({"cb": "c-text"})),
        show(json!({"cc": "c-wait"})),
        show(json!({"ca": "", "cc": ""})),
        show(json!({"cb": "c-auto"})),
        show(json!({"cc": "c-default", "ci": "y c-help"})),
        show(json!({"cc": "h c-wait", "ct": "y h"})),
        show(json!({"ci": "n c-wait", "ct": "y c-pointer"})),
        show(json!({"ci": "y h c-wait"})),
        show(json!({"nb": "toggle"})),
        Act { value: Some(json!({"ca": "c-help"})), events: vec![to(15.0, 15.0)] },
        Act { value: Some(json!({"cc": "n", "cb": ""})), events: vec![to(25.0, 25.0), left_down()] },
        act(left_up()),
    ]);
    let mut drags = drag_acts();
    drags.push(Act { value: None, events: vec![to(10.0, 10.0), left_down(), to(300.0, 300.0)] });
    let states = |more: bool| {
        let mut acts = vec![
            act(to(10.0, 10.0)),
            act(to(45.0, 15.0)),
            act(to(200.0, 200.0)),
            act(left_down()),
            act(right_down()),
            act(left_up()),
            act(right_up()),
        ];
        if more {
            acts.push(show(json!({"sb": "left: 0;"})));
            acts.push(act(key_down()));
        }
        acts
    };
    let k = if thorough { 3 } else { 2 };
    let mut families = vec![
        long::marathon_of_acts("marathon of cursors", stack(), STACK, json!({}), cursors.clone(), k, &[], true),
        long::marathon_of_acts("marathon of drags", dragging(), DRAG_BOXES, json!({}), drags.clone(), k, &[], true),
        long::marathon_of_acts("marathon of focus", fields(), FIELDS, json!({}), states(true), k + 1, &[], true),
        through("cursors", stack(), STACK, cursors.clone(), 3 + d),
        through("drag-capture", dragging(), DRAG_BOXES, drags.clone(), 4 + d),
        interactions("drag-capture-open", dragging(), DRAG_BOXES, json!({}), drags, 4 + d, &[], true),
        interactions("focus-capture", fields(), FIELDS, json!({}), states(true), 4 + d, &[], true),
        interactions("focus-capture-deep", fields(), FIELDS, json!({}), states(false), 5 + d, &[], true),
        roles(thorough, 2 + d, &[], true),
        vanishing(thorough, if thorough { 4 } else { 3 }, &[], true),
    ];
    if thorough {
        let few = cursors.iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|(_, a)| a.clone()).collect();
        families.push(through("cursors-deep", stack(), STACK, few, 5));
    }
    (families, assumed(&["cursors come from classes; boxes are taken from the view"]))
}

/// With a body that takes no pointer events.
fn through(name: &str, doc: Doc, css: &str, acts: Vec<Act>, depth: usize) -> Family {
    interactions_of(name, doc.html().replace("<body>", "<body class=\"n\">"), css, json!({}), acts, depth, &[], true)
}
