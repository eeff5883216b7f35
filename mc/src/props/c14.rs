use super::decls::*;
use super::ui::*;
use super::*;
use bumaga::{InputEvent, View};

/// Bring a view to a known interaction state: nothing hovered, active, focused or dragged, and
/// then what `events` say; idle updates let it settle.
fn settle(view: &mut View, value: &Value, viewport: [f32; 2], events: &[InputEvent]) -> Result<(), String> {
    let step = |events: Vec<InputEvent>| {
        Step::new(value.clone()).viewport(viewport[0], viewport[1]).events(events)
    };
    for e in [to(-900.0, -900.0), left_down(), left_up()] {
        step(vec![e]).run(view)?;
    }
    step(vec![]).run(view)?;
    for e in events {
        step(vec![*e]).run(view)?;
    }
    for _ in 0..3 {
        step(vec![]).run(view)?;
    }
    Ok(())
}

/// The used view has to look as a new one in the same state.
fn as_new(
    used: &mut View,
    html: &str,
    css: &str,
    value: &Value,
    viewport: [f32; 2],
    events: &[InputEvent],
    ctx: &mut crate::engine::Ctx,
) -> Result<(), String> {
    let mut new = view(html, css)?;
    settle(used, value, viewport, events)?;
    settle(&mut new, value, viewport, events)?;
    let mut out = String::new();
    full(&used.body(), &mut out);
    ctx.step(&format!("settle value={value} viewport={viewport:?} {events:?}"), &out);
    same_full(&used.body(), &new.body(), "body")
}

/// How a declaration comes and goes: html attributes of the three elements in question,
/// css and the actions which switch it on and off.
struct Way {
    name: &'static str,
    outer: &'static str,
    before: &'static str,
    target: &'static str,
    selector: &'static str,
    on: Vec<Act>,
    off: Vec<Act>,
    bound: bool,
}

fn ways() -> Vec<Way> {
    let v = |on: Value| show(on);
    let way = |name, outer, before, target, selector, on, off| Way {
        name,
        outer,
        before,
        target,
        selector,
        on,
        off,
        bound: false,
    };
    let flag = || vec![v(json!({"s": "on"}))];
    let none = || vec![v(json!({"s": ""}))];
    let over = || vec![act(to(5.0, 5.0)), Act { value: None, events: vec![] }];
    let away = || vec![act(to(700.0, 500.0)), Act { value: None, events: vec![] }];
    vec![
        way("class", "", "", "@class=\"{s}\"", ".on", flag(), none()),
        way("part of class", "", "", "@class=\"x {s} y\"", ".on", flag(), none()),
        way("flag", "", "", "#s=\"{s}\"", "[s]", flag(), none()),
        way("attribute", "", "", "@data-s=\"{s}\"", "[data-s=on]", flag(), none()),
        way("id", "", "", "@id=\"{s}\"", "#on", flag(), none()),
        way("class of the parent", "@class=\"{s}\"", "", "", ".on > div", flag(), none()),
        way("flag of the parent on all", "#s=\"{s}\"", "", "", "[s] > *", flag(), none()),
        way("class of the sibling", "", "@class=\"{s}\"", "", ".on + div", flag(), none()),
        way("sibling comes and goes", "", "?=\"{s}\"", "", "p + div", flag(), none()),
        way("element comes and goes", "", "", "?=\"{s}\"", "div", flag(), none()),
        way("parent comes and goes", "?=\"{s}\"", "", "", "div", flag(), none()),
        way("inherited from the parent", "@class=\"{s}\"", "", "", ".on", flag(), none()),
        way("hover of the body", "", "", "", "body:hover > section > div", over(), away()),
        way("hover", "", "", "", "div:hover", over(), away()),
        way(
            "active",
            "",
            "",
            "",
            "body:active > section > div",
            vec![act(to(5.0, 5.0)), act(left_down()), Act { value: None, events: vec![] }],
            vec![act(left_up()), Act { value: None, events: vec![] }],
        ),
        way(
            "focus",
            "^oninput=\"i\"",
            "",
            "",
            "section:focus > div",
            vec![act(to(5.0, 5.0)), act(left_down()), act(left_up())],
            vec![act(to(700.0, 500.0)), act(left_down()), act(left_up())],
        ),
        Way {
            bound: true,
            ..way("inline style", "", "", "@style=\"{s}\"", "", vec![], none())
        },
        Way {
            bound: true,
            ..way("part of inline style", "", "", "@style=\"width: 7px; {s}\"", "", vec![], none())
        },
        Way {
            bound: true,
            ..way("inline style replaced by a broken one", "", "", "@style=\"{s}\"", "", vec![], vec![show(json!({"s": "color red"}))])
        },
        Way {
            bound: true,
            ..way("inline style of the parent", "@style=\"{s}\"", "", "", "", vec![], none())
        },
    ]
}

/// Every declaration on and off (and on again), with and without another declaration of the
/// same property below.
fn toggles(list: Vec<Decl>, name: &str) -> Family {
    let ways = ways();
    let bases = spread(1);
    let (n, w) = (list.len() as u64, ways.len() as u64);
    Family::new(name, n * w * 4, move |index, ctx| {
        let [based, again, w, d] = mixed(index, &[2, 2, w, n])[..] else { unreachable!() };
        let (way, d) = (&ways[w], &list[d]);
        let base = bases.iter().find(|b| b.property == d.property).expect("base");
        let html = format!(
            "<html><body><section {}><p {}>ab</p><div {}>cde<b>fg</b></div><div class=\"last\">hi</div></section></body></html>",
            way.outer, way.before, way.target
        );
        let mut css = "body { width: 300px; height: 300px; } section { width: 100px; min-height: 60px; } p { height: 4px; }\n".to_string();
        if based == 1 {
            css.push_str(&format!("section, div {{ {} }}\n", base.css));
        }
        if !way.selector.is_empty() {
            css.push_str(&format!("{} {{ {} }}\n", way.selector, d.css));
        }
        css.push_str(".last { color: red; }");
        ctx.begin(&format!("{}: {}\n{html}\n{css}", way.name, d.css));
        let mut view = view(&html, &css)?;
        let mut value = json!({"s": ""});
        let mut acts = vec![];
        let on = if way.bound { vec![show(json!({"s": d.css}))] } else { way.on.clone() };
        acts.push(Act { value: None, events: vec![] });
        acts.extend(on.clone());
        acts.extend(way.off.clone());
        if again == 1 {
            acts.extend(on);
        }
        for a in &acts {
            if let Some(v) = &a.value {
                merge(&mut value, v);
            }
            let step = Step::new(value.clone()).events(a.events.clone());
            step.run(&mut view)?;
            ctx.step(&step.label(), "");
        }
        as_new(&mut view, &html, &css, &value, [800.0, 600.0], &[], ctx)?;
        if way.name.starts_with("hover of") {
            as_new(&mut view, &html, &css, &value, [800.0, 600.0], &[to(5.0, 250.0)], ctx)?;
        }
        Ok(())
    })
}

#[derive(Clone)]
pub struct Move {
    pub act: Act,
    pub viewport: Option<[f32; 2]>,
}

fn v(value: Value) -> Move {
    Move { act: show(value), viewport: None }
}
fn e(event: InputEvent) -> Move {
    Move { act: act(event), viewport: None }
}
fn both(value: Value, events: Vec<InputEvent>) -> Move {
    Move { act: Act { value: Some(value), events }, viewport: None }
}
fn port(w: f32, h: f32) -> Move {
    Move { act: Act { value: None, events: vec![] }, viewport: Some([w, h]) }
}
fn press(x: f32, y: f32) -> Move {
    Move { act: Act { value: None, events: vec![to(x, y), left_down()] }, viewport: None }
}
fn release() -> Move {
    e(left_up())
}

pub struct World {
    pub name: &'static str,
    pub html: &'static str,
    pub css: &'static str,
    pub first: Value,
    pub moves: Vec<Move>,
    /// Interaction states to compare in.
    pub states: Vec<Vec<InputEvent>>,
}

pub fn worlds() -> Vec<World> {
    vec![
        World {
            name: "styles",
            html: "<html><body><section @class=\"{c}\"><p>ab {t}<b>cd</b></p><i>ef</i></section>\
                   <div #f=\"{f}\" @style=\"{s}\"><p>gh {t}</p></div></body></html>",
            css: "body { width: 200px; height: 200px; } section { width: 90px; min-height: 30px; }\
                  .a { font-size: 32px; color: red; pointer-events: auto; } \
                  .b { font-weight: bold; padding: 3px; opacity: 0.5; --w: 11px; } \
                  .a + div { border-width: 2px; font-style: italic; } \
                  [f] { background-color: red, blue; cursor: text; margin-top: 1em; } [f] > p { overflow: hidden; width: 9px; } \
                  section:hover > i { visibility: hidden; font-family: \"X\"; width: var(--w); } \
                  section:active + div { width: var(--w); min-height: 2vw; } .b > p { text-align: center; position: absolute; }",
            first: json!({"c": "", "f": false, "s": "", "t": ""}),
            moves: vec![
                v(json!({"c": "a"})),
                v(json!({"c": "b"})),
                v(json!({"c": "a b"})),
                v(json!({"c": ""})),
                v(json!({"f": "toggle"})),
                v(json!({"s": "font-size: 8px; width: 50%;"})),
                v(json!({"s": "--w: 5px; margin-left: 5vw;"})),
                v(json!({"s": ""})),
                v(json!({"s": "width"})),
                v(json!({"t": "longer text"})),
                v(json!({"t": ""})),
                e(to(5.0, 20.0)),
                press(5.0, 20.0),
                release(),
                port(400.0, 900.0),
                both(json!({"c": "b", "f": true}), vec![to(300.0, 300.0)]),
            ],
            states: vec![vec![], vec![to(5.0, 20.0)], vec![to(5.0, 20.0), left_down()]],
        },
        World {
            name: "lists",
            html: "<html><body><ul><li class=\"head\" ?=\"{h}\">head</li>\
                   <li *i=\"3 {l}\" @class=\"{i.c}\"><b ?=\"{i.o}\" #f=\"{i.f}\">{i.t}</b><u>{i.t}</u></li>\
                   <li class=\"tail\">tail</li></ul></body></html>",
            css: "body { width: 200px; height: 200px; } ul { width: 100px; } li { min-height: 20px; }\
                  li + li { margin-top: 1px; } .head + li { color: red; } .x + .y { font-size: 8px; } .x > u { padding-left: 3px; } \
                  [f] + u { font-weight: bold; } li:hover > u { color: blue; border: 1px solid red; } .tail { font-size: 0.5em; } \
                  li:active { font-style: italic; } .y { display: flex; } .x + .tail { opacity: 0.25; }",
            first: json!({"h": true, "l": []}),
            moves: vec![
                v(json!({"l": []})),
                v(json!({"l": [{"c": "x", "o": true, "f": true, "t": "one"}]})),
                v(json!({"l": [{"c": "y", "o": true, "f": false, "t": "ace"}, {"c": "x", "o": false, "t": "two"}]})),
                v(json!({"l": [{"c": "x", "o": false, "f": false, "t": ""}, {"c": "y", "o": true, "f": true, "t": "twotwo"}, {"t": "3"}]})),
                v(json!({"l": [{}, {"c": "y"}]})),
                v(json!({"l": null})),
                v(json!({"h": "toggle"})),
                e(to(5.0, 25.0)),
                press(5.0, 45.0),
                release(),
                both(json!({"l": []}), vec![to(5.0, 25.0), left_down()]),
                e(to(300.0, 300.0)),
            ],
            states: vec![vec![], vec![to(5.0, 25.0)], vec![to(5.0, 25.0), left_down()]],
        },
        World {
            name: "fields",
            html: "<html><body><input @value=\"{t}\" @class=\"{c}\" ^oninput=\"i\" ?=\"{a}\"/><p>label</p>\
                   <div ^oninput=\"j\" #f=\"{f}\" class=\"field\"><i>{t}</i></div><img @src=\"{s}\" @class=\"{c}\"/></body></html>",
            css: "body { width: 200px; height: 200px; } input, .field, img { width: 60px; height: 20px; } p { height: 20px; }\
                  input:focus { background-color: red; border-width: 2px; } input:focus + p { color: blue; font-size: 24px; } \
                  :focus > i { opacity: 0.5; padding: 2px; } .c { visibility: hidden; } .d { pointer-events: none; padding: 1px; } \
                  input:hover, .field:hover { margin-top: 3px; } [value=\"x\"] { margin-left: 9px; } [f]:focus { font-weight: bold; } p + [f] { cursor: wait; }",
            first: json!({"a": true, "s": "a.png"}),
            moves: vec![
                v(json!({"a": "toggle"})),
                v(json!({"t": "x"})),
                v(json!({"t": "abc"})),
                v(json!({"c": "c"})),
                v(json!({"c": "d"})),
                v(json!({"c": ""})),
                v(json!({"f": "toggle"})),
                v(json!({"s": "b.png"})),
                v(json!({"s": ""})),
                press(10.0, 10.0),
                press(10.0, 50.0),
                press(10.0, 70.0),
                release(),
                e(char_in()),
                e(to(300.0, 300.0)),
                both(json!({"a": "toggle"}), vec![to(300.0, 300.0), left_up()]),
            ],
            states: vec![vec![], vec![to(10.0, 10.0), left_down(), left_up()], vec![to(10.0, 50.0), left_down(), left_up(), to(300.0, 300.0)]],
        },
        World {
            name: "hidden parts",
            html: "<html><body><div ?=\"{a}\" @class=\"{c}\"><p ?=\"{b}\"><b>{t}</b>text</p><p !=\"{b}\" #f=\"{t}\">{t}</p></div>\
                   <section @style=\"{s}\"><p ?=\"{b}\">more {t}</p><i>{t}</i></section></body></html>",
            css: "body { width: 300px; height: 300px; } div { min-height: 10px; width: 100px; }\
                  .x { font-size: 2vw; --c: red; --w: 10vh; } .y { font-family: \"F\"; font-style: oblique; --w: 2em; display: flex; } \
                  p { color: var(--c); width: var(--w); } [f] { margin: 1px; } p + i { font-weight: 900; } div + section { padding: 0.5rem; } \
                  section:hover > i { color: blue; font-size: 10px; } section { min-height: 40px; } \
                  div:hover > p { opacity: 0.5; } p:active { flex-grow: 2; }",
            first: json!({}),
            moves: vec![
                v(json!({"a": "toggle"})),
                v(json!({"b": "toggle"})),
                v(json!({"c": "x"})),
                v(json!({"c": "y"})),
                v(json!({"c": "x y"})),
                v(json!({"c": ""})),
                v(json!({"t": "text"})),
                v(json!({"t": ""})),
                v(json!({"s": "--w: 3px; --c: #010203; font-size: 20px;"})),
                v(json!({"s": "--c: blue;"})),
                v(json!({"s": ""})),
                press(5.0, 5.0),
                both(json!({"a": "toggle"}), vec![to(290.0, 290.0)]),
                both(json!({"b": "toggle"}), vec![left_up()]),
                port(200.0, 1000.0),
                port(800.0, 1000.0),
                port(800.0, 600.0),
            ],
            states: vec![vec![], vec![to(5.0, 30.0)], vec![to(5.0, 5.0)]],
        },
        World {
            name: "scroll and clip",
            html: "<html><body><div @class=\"{c}\"><p @style=\"{s}\">{t}<b>b</b></p></div><div class=\"r\"><p>{t}</p></div></body></html>",
            css: "div { width: 50px; height: 20px; } .o { overflow: hidden; } .big { width: 100px; height: 100px; } .r { overflow: scroll; position: relative; }\
                  .big + .r { width: 10px; } p { min-width: 5px; } .r:hover { height: 30px; }",
            first: json!({}),
            moves: vec![
                v(json!({"c": "o"})),
                v(json!({"c": "big"})),
                v(json!({"c": "o big"})),
                v(json!({"c": ""})),
                v(json!({"s": "width: 70px; height: 50px;"})),
                v(json!({"s": "width: 200%; left: -10px;"})),
                v(json!({"s": "position: absolute; left: 45px; width: 20px; height: 3px;"})),
                v(json!({"s": ""})),
                v(json!({"t": "some long text"})),
                v(json!({"t": ""})),
                port(100.0, 100.0),
                e(to(5.0, 25.0)),
                e(InputEvent::MouseWheel([3.0, -7.0])),
            ],
            states: vec![vec![], vec![to(5.0, 25.0)]],
        },
    ]
}

fn histories(w: World, depth: usize) -> Family {
    let (n, s) = (w.moves.len() as u64, w.states.len() as u64);
    Family::new(w.name, n.pow(depth as u32) * s, move |index, ctx| {
        ctx.begin(&format!("{}\n{}", w.html, w.css));
        let mut view = view(w.html, w.css)?;
        let mut value = w.first.clone();
        let mut viewport = [800.0, 600.0];
        Step::new(value.clone()).run(&mut view)?;
        for i in digits(index / s, n, depth) {
            let m = &w.moves[i];
            if let Some(change) = &m.act.value {
                merge(&mut value, change);
            }
            viewport = m.viewport.unwrap_or(viewport);
            let step = Step::new(value.clone()).viewport(viewport[0], viewport[1]).events(m.act.events.clone());
            step.run(&mut view)?;
            ctx.step(&step.label(), "");
        }
        as_new(&mut view, w.html, w.css, &value, viewport, &w.states[(index % s) as usize], ctx)
    })
}

/// One view goes through every pair of moves, compared with a new one on the way.
fn marathon(w: World, k: usize, every: usize) -> Family {
    let order = long::tour(w.moves.len(), k);
    Family::new(&format!("marathon: {}", w.name), every as u64, move |index, ctx| {
        ctx.begin(&format!("{}\n{}", w.html, w.css));
        let mut view = view(w.html, w.css)?;
        let mut value = w.first.clone();
        let mut viewport = [800.0, 600.0];
        Step::new(value.clone()).run(&mut view)?;
        for (n, i) in order.iter().enumerate() {
            let m = &w.moves[*i];
            if let Some(change) = &m.act.value {
                merge(&mut value, change);
            }
            viewport = m.viewport.unwrap_or(viewport);
            let step = Step::new(value.clone()).viewport(viewport[0], viewport[1]).events(m.act.events.clone());
            step.run(&mut view)?;
            ctx.step(&step.label(), "");
            if n % every == index as usize {
                let state = &w.states[n / every % w.states.len()];
                as_new(&mut view, w.html, w.css, &value, viewport, state, ctx).map_err(|e| format!("update {n}: {e}"))?;
            }
        }
        Ok(())
    })
}

pub fn plan(thorough: bool) -> Plan {
    let mut families = vec![toggles(all(), "toggles")];
    for w in worlds() {
        families.push(marathon(w, if thorough { 3 } else { 2 }, 5));
    }
    for w in worlds() {
        families.push(histories(w, if thorough { 4 } else { 3 }));
    }
    (
        families,
        assumed(&["both views get the same last events and idle updates before they are compared", "no transitions and animations"]),
    )
}
