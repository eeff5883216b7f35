use super::c08::{drag_acts, dragging, DRAG_BOXES};
use super::ui::*;
use super::*;

pub fn plan(thorough: bool) -> Plan {
    let d = if thorough { 1 } else { 0 };
    let rich = || {
        let mut a = drag_acts();
        a.extend([
            show(json!({"u": "toggle"})),
            show(json!({"s": "toggle"})),
            show(json!({"drag": "not "})),
            Act { value: None, events: vec![left_down(), to(50.0, 20.0), left_up()] },
            Act { value: None, events: vec![to(2.0, 2.0), left_down()] },
            Act { value: None, events: vec![left_up(), left_down()] },
            Act { value: None, events: vec![to(10.0, 10.0), left_down(), to(35.0, 5.0), to(200.0, 5.0), left_up(), left_up()] },
        ]);
        a
    };
    let few = || {
        vec![
            act(to(10.0, 10.0)),
            act(to(35.0, 5.0)),
            act(to(50.0, 20.0)),
            act(to(90.0, 10.0)),
            act(left_down()),
            act(left_up()),
        ]
    };
    let k = if thorough { 4 } else { 3 };
    let mut families = vec![
        long::marathon_of_acts("marathon", dragging(), DRAG_BOXES, json!({}), drag_acts(), k, &DRAG, false),
        long::marathon_of_acts("marathon with changes", dragging(), DRAG_BOXES, json!({}), rich(), k - 1, &DRAG, false),
        interactions("drags", dragging(), DRAG_BOXES, json!({}), drag_acts(), 4 + d, &DRAG, false),
        interactions("drags-rich", dragging(), DRAG_BOXES, json!({}), rich(), 3 + d, &DRAG, false),
        interactions("drags-deep", dragging(), DRAG_BOXES, json!({}), few(), 6 + d, &DRAG, false),
        roles(thorough, 2 + d, &DRAG, false),
        vanishing(thorough, if thorough { 4 } else { 3 }, &DRAG, false),
    ];
    if thorough {
        families.push(interactions("drags-deeper", dragging(), DRAG_BOXES, json!({}), few(), 8, &DRAG, false));
    }
    (families, assumed(&["one draggable element, two nested drop targets"]))
}
