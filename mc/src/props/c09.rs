use super::ui::*;
use super::*;

pub const FIELDS: &str = "\
body { width: 100px; height: 40px; }
.a { position: absolute; left: 0; top: 0; width: 30px; height: 30px; }
.e { position: absolute; left: 5px; top: 5px; width: 10px; height: 10px; }
.b { position: absolute; left: 40px; top: 0; width: 30px; height: 30px; }
.w { position: absolute; left: 20px; top: 20px; width: 60px; height: 20px; }
.p { position: absolute; left: 25px; top: 0; width: 20px; height: 10px; }
";

/// Two input elements, one with a child and one void; a plain box over both, a wrapper of others.
pub fn fields() -> Doc {
    Doc::new(vec![
        div(
            with(listen("a", true, false), vec![at("class", "a")]),
            vec![div(with(listen("e", false, false), vec![at("class", "e")]), vec![])],
        ),
        el("input", with(listen("b", true, false), vec![at("class", "b"), bind("style", "{sb}")]), vec![]),
        div(with(listen("p", false, false), vec![at("class", "p")]), vec![]),
    ])
}

pub fn plan(thorough: bool) -> Plan {
    let d = if thorough { 1 } else { 0 };
    let acts = || {
        vec![
            act(to(10.0, 10.0)),
            act(to(20.0, 20.0)),
            act(to(28.0, 5.0)),
            act(to(45.0, 15.0)),
            act(to(200.0, 200.0)),
            act(left_down()),
            act(right_down()),
            act(left_up()),
            act(key_down()),
            act(key_up()),
            act(char_in()),
        ]
    };
    let rich = || {
        let mut a = acts();
        a.extend([
            show(json!({"sb": "left: 0;"})),
            show(json!({"sb": "visibility: visible;"})),
            Act { value: None, events: vec![left_down(), char_in(), to(45.0, 15.0), left_down(), char_in()] },
            Act { value: None, events: vec![to(10.0, 10.0), left_down(), key_down(), key_up(), left_up()] },
            Act { value: None, events: vec![to(200.0, 200.0), right_down(), char_in()] },
            Act { value: None, events: vec![to(20.0, 20.0), left_down(), key_down()] },
            Act { value: None, events: vec![to(45.0, 15.0), right_down(), key_up()] },
        ]);
        a
    };
    let few = || {
        vec![
            act(to(10.0, 10.0)),
            act(to(45.0, 15.0)),
            act(to(200.0, 200.0)),
            act(left_down()),
            act(left_up()),
            act(char_in()),
        ]
    };
    let k = if thorough { 4 } else { 3 };
    let families = vec![
        long::marathon_of_acts("marathon", fields(), FIELDS, json!({}), acts(), k, &FOCUS, false),
        long::marathon_of_acts("marathon with changes", fields(), FIELDS, json!({}), rich(), k - 1, &FOCUS, false),
        interactions("fields", fields(), FIELDS, json!({}), acts(), 4 + d, &FOCUS, false),
        interactions("fields-rich", fields(), FIELDS, json!({}), rich(), 3 + d, &FOCUS, false),
        interactions("fields-deep", fields(), FIELDS, json!({}), few(), 6 + d, &FOCUS, false),
        roles(thorough, 2 + d, &FOCUS, false),
        vanishing(thorough, if thorough { 4 } else { 3 }, &FOCUS, false),
    ];
    (families, assumed(&["two input elements, not nested and not overlapping; keys and characters stand for all others"]))
}
