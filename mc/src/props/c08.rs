use super::c07::{boxes, BOXES};
use super::ui::*;
use super::*;

pub fn plan(thorough: bool) -> Plan {
    let d = if thorough { 1 } else { 0 };
    let acts = || {
        vec![
            act(to(5.0, 5.0)),
            act(to(15.0, 15.0)),
            act(to(25.0, 25.0)),
            act(to(50.0, 50.0)),
            act(to(100.0, 5.0)),
            act(left_down()),
            act(left_up()),
            act(right_down()),
            act(right_up()),
            show(json!({"b": "toggle"})),
        ]
    };
    // also several events in one update, and boxes that move or stop accepting events
    let rich = || {
        let mut a = acts();
        a.extend([
            show(json!({"cc": "h"})),
            show(json!({"ca": "n"})),
            show(json!({"sb": "left: 25px;"})),
            Act { value: None, events: vec![left_down(), left_up()] },
            Act { value: None, events: vec![left_down(), to(25.0, 25.0), left_up()] },
            Act { value: None, events: vec![to(15.0, 15.0), left_down()] },
            Act { value: None, events: vec![to(35.0, 35.0), right_down(), right_up(), left_up()] },
            Act { value: Some(json!({"b": "toggle"})), events: vec![left_up(), to(15.0, 15.0)] },
        ]);
        a
    };
    let few = || {
        vec![
            act(to(15.0, 15.0)),
            act(to(25.0, 25.0)),
            act(left_down()),
            act(left_up()),
            act(right_up()),
            show(json!({"b": "toggle"})),
        ]
    };
    let k = if thorough { 4 } else { 3 };
    let mut families = vec![
        long::marathon_of_acts("marathon", boxes(), BOXES, json!({}), rich(), 2, &BUTTON, false),
        long::marathon_of_acts("marathon of presses", boxes(), BOXES, json!({}), acts(), k, &BUTTON, false),
        long::marathon_of_acts("marathon with drags", dragging(), DRAG_BOXES, json!({}), drag_acts(), k, &BUTTON, false),
        interactions("presses", boxes(), BOXES, json!({}), acts(), 4 + d, &BUTTON, false),
        interactions("presses-rich", boxes(), BOXES, json!({}), rich(), 3 + d, &BUTTON, false),
        interactions("presses-deep", boxes(), BOXES, json!({}), few(), 6 + d, &BUTTON, false),
        interactions("tower", super::c07::tower(), super::c07::TOWER, json!({}), super::c07::tower_acts(), 3 + d, &BUTTON, false),
        interactions("with-drag", dragging(), DRAG_BOXES, json!({}), drag_acts(), 4 + d, &BUTTON, false),
        roles(thorough, 2 + d, &BUTTON, false),
        vanishing(thorough, if thorough { 4 } else { 3 }, &BUTTON, false),
    ];
    if thorough {
        families.push(interactions("presses-deeper", boxes(), BOXES, json!({}), acts(), 6, &BUTTON, false));
    }
    (families, assumed(&["two buttons; boxes are taken from the view"]))
}

pub const DRAG_BOXES: &str = "\
body { width: 100px; height: 40px; }
.s { position: absolute; left: 0; top: 0; width: 20px; height: 20px; }
.i { position: absolute; left: 5px; top: 5px; width: 10px; height: 10px; }
.t { position: absolute; left: 30px; top: 0; width: 40px; height: 40px; }
.u { position: absolute; left: 10px; top: 10px; width: 20px; height: 20px; }
.p { position: absolute; left: 80px; top: 0; width: 20px; height: 40px; }
";

/// A draggable box with something inside, nested drop targets, a plain box, empty space.
pub fn dragging() -> Doc {
    Doc::new(vec![
        div(
            with(
                listen("s", false, false),
                vec![at("class", "s"), bind("draggable", "{drag}true"), unless("s")],
            ),
            vec![div(with(listen("i", false, false), vec![at("class", "i")]), vec![])],
        ),
        div(
            with(listen("t", false, true), vec![at("class", "t")]),
            vec![div(
                with(listen("u", false, true), vec![at("class", "u"), unless("u")]),
                vec![],
            )],
        ),
        div(
            with(listen("p", false, false), vec![at("class", "p"), at("draggable", "false")]),
            vec![],
        ),
    ])
}

pub fn drag_acts() -> Vec<Act> {
    vec![
        act(to(2.0, 2.0)),
        act(to(10.0, 10.0)),
        act(to(35.0, 5.0)),
        act(to(50.0, 20.0)),
        act(to(90.0, 10.0)),
        act(to(200.0, 200.0)),
        act(left_down()),
        act(left_up()),
        act(right_down()),
        act(right_up()),
    ]
}
