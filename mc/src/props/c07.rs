use super::ui::*;
use super::*;

pub const BOXES: &str = "\
body { width: 70px; height: 70px; }
.a { position: absolute; left: 0; top: 0; width: 40px; height: 40px; }
.b { position: absolute; left: 10px; top: 10px; width: 20px; height: 20px; }
.c { position: absolute; left: 20px; top: 20px; width: 40px; height: 40px; }
.d { position: absolute; left: -15px; top: 30px; width: 20px; height: 8px; }
";

/// Nested and overlapping boxes; d sticks out of its parent.
pub fn boxes() -> Doc {
    Doc::new(vec![
        div(
            with(listen("a", false, false), vec![bind("class", "a {ca}")]),
            vec![div(
                with(
                    listen("b", false, false),
                    vec![bind("class", "b {cb}"), bind("style", "{sb}"), unless("b")],
                ),
                vec![],
            )],
        ),
        div(
            with(listen("c", false, false), vec![bind("class", "c {cc}")]),
            vec![div(
                with(listen("d", false, false), vec![bind("class", "d {cd}"), unless("d")]),
                vec![],
            )],
        ),
    ])
}

/// Many boxes inside each other, each with its own corner.
pub fn tower() -> Doc {
    let names = ["t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9", "t10", "t11"];
    let mut inner: Vec<T> = vec![];
    for (i, name) in names.iter().enumerate().rev() {
        let mut attrs = with(listen(name, false, false), vec![bind("class", if i == 4 { "t {c4}" } else { "t" })]);
        if i == 7 {
            attrs.push(unless("gone"));
        }
        inner = vec![div(attrs, inner)];
    }
    Doc::new(inner)
}

pub const TOWER: &str = "body { width: 70px; height: 70px; } .t { position: absolute; left: 2px; top: 2px; width: 30px; height: 30px; } body > .t { left: -9px; top: -7px; }";

pub fn tower_acts() -> Vec<Act> {
    let mut acts: Vec<Act> = [to(-8.0, -6.5), to(3.0, 3.0), to(13.0, 5.0), to(25.0, 25.0), to(45.0, 45.0), to(69.0, 1.0)].into_iter().map(act).collect();
    acts.extend([act(left_down()), act(left_up()), show(json!({"gone": "toggle"})), show(json!({"c4": "h"})), show(json!({"c4": ""}))]);
    acts.push(Act { value: None, events: vec![to(25.0, 25.0), right_down(), right_up(), left_down(), to(5.0, 5.0), left_up()] });
    acts
}

fn hidden_parts(extra: bool) -> Vec<Act> {
    let mut acts = vec![
        show(json!({"b": "toggle"})),
        show(json!({"d": "toggle"})),
        show(json!({"cc": "h"})),
        show(json!({"ca": "n"})),
        show(json!({"sb": "left: 25px;"})),
    ];
    if extra {
        acts.extend([
            show(json!({"cc": "n"})),
            show(json!({"cd": "y"})),
            show(json!({"ca": "", "cc": "", "sb": ""})),
            show(json!({"cb": "h"})),
        ]);
    }
    acts
}

/// Rows which appear and vanish under the resting pointer, with texts.
fn rows() -> Doc {
    Doc::new(vec![
        el("r", with(listen("head", false, false), vec![when("head")]), vec![]),
        el(
            "r",
            with(listen("row", false, false), vec![repeat("i", 3, "l")]),
            vec![
                text("x"),
                el("q", with(listen("q", false, false), vec![when("i")]), vec![text("y")]),
            ],
        ),
        el("r", listen("foot", false, false), vec![]),
    ])
}

const ROWS: &str = "body { width: 60px; } r { width: 60px; height: 20px; display: flex; font-size: 8px; }
 q { width: 10px; height: 15px; } ";

pub fn plan(thorough: bool) -> Plan {
    let points = |all: bool| -> Vec<Act> {
        let mut p = vec![
            to(5.0, 5.0),
            to(15.0, 15.0),
            to(25.0, 25.0),
            to(35.0, 35.0),
            to(8.0, 53.0),
            to(100.0, 5.0),
        ];
        if all {
            p.extend([to(50.0, 50.0), to(22.0, 53.0), to(30.0, 29.5), to(20.0, 20.0)]);
        }
        p.into_iter().map(act).collect()
    };
    let rich = || {
        let mut acts = points(true);
        acts.extend(hidden_parts(true));
        acts.push(Act { value: None, events: vec![] });
        acts.push(Act { value: None, events: vec![to(5.0, 5.0), to(25.0, 25.0)] });
        acts.push(Act {
            value: Some(json!({"b": "toggle"})),
            events: vec![left_down(), to(15.0, 15.0)],
        });
        acts
    };
    let small = || {
        let mut acts = points(false);
        acts.extend(hidden_parts(false));
        acts
    };
    let row_acts = || {
        vec![
            act(to(2.0, 10.0)),
            act(to(5.0, 30.0)),
            act(to(50.0, 50.0)),
            show(json!({"head": "toggle"})),
            show(json!({"l": []})),
            show(json!({"l": [1]})),
            show(json!({"l": [0, 1]})),
            show(json!({"l": [1, 1, 1]})),
        ]
    };
    let d = if thorough { 1 } else { 0 };
    let k = if thorough { 3 } else { 2 };
    let mut families = vec![
        interactions("boxes-rich", boxes(), BOXES, json!({}), rich(), 3 + d, &POINTER, false),
        interactions("boxes", boxes(), BOXES, json!({}), small(), 4 + d, &POINTER, false),
        interactions("rows", rows(), ROWS, json!({"l": [1, 0]}), row_acts(), 4 + d, &POINTER, false),
        long::marathon_of_acts("marathon", boxes(), BOXES, json!({}), rich(), k, &POINTER, false),
        long::marathon_of_acts("marathon of rows", rows(), ROWS, json!({"l": [1, 0]}), row_acts(), k + 1, &POINTER, false),
        interactions("tower", tower(), TOWER, json!({}), tower_acts(), 3 + d, &POINTER, false),
        grid(thorough),
        declared(thorough),
        roles(thorough, 2 + d, &POINTER, false),
        vanishing(thorough, if thorough { 4 } else { 3 }, &POINTER, false),
    ];
    if thorough {
        let mut acts = small();
        acts.truncate(8);
        families.push(interactions("boxes-deep", boxes(), BOXES, json!({}), acts, 6, &POINTER, false));
    }
    (
        families,
        assumed(&[
            "boxes are taken from the view (they are judged by the property about positions)",
            "whether an element is hidden or accepts pointer events is taken from the template",
        ]),
    )
}

/// Every cell and half cell of the area, entered from outside and left again.
fn grid(thorough: bool) -> Family {
    let html = boxes().html();
    let css = format!("{CSS}{BOXES}");
    let n: u64 = if thorough { 292 } else { 146 };
    let unit = if thorough { 0.25 } else { 0.5 };
    Family::new("grid", n, move |row, ctx| {
        ctx.begin(&html);
        let mut view = view(&html, &css)?;
        let mut sim = Sim::default();
        for column in 0..n {
            let point = to(column as f32 * unit - 1.0, row as f32 * unit - 1.0);
            let step = Step::new(json!({})).event(point);
            run(&mut view, &mut sim, &step, &POINTER, false, ctx)?;
            let step = Step::new(json!({})).event(to(1000.0, 1000.0));
            run(&mut view, &mut sim, &step, &POINTER, false, ctx)?;
        }
        Ok(())
    })
}

/// No other declaration has a say in what is hovered.
fn declared(thorough: bool) -> Family {
    let mut list: Vec<super::decls::Decl> = super::decls::all();
    list.retain(|d| !["visibility", "pointer-events"].contains(&d.property));
    let html = boxes().html();
    let points = [to(5.0, 5.0), to(12.0, 12.0), to(25.0, 25.0), to(22.0, 53.0), to(8.0, 53.0)];
    let n = points.len() as u64;
    let depth = if thorough { 3 } else { 2 };
    let walks = n.pow(depth as u32);
    let names = [".b", ".a", ".c", ".d", "body"];
    let count = list.len() as u64 * names.len() as u64 * walks;
    Family::new("declared", count, move |index, ctx| {
        let [d, who, walk] = mixed(index, &[list.len() as u64, names.len() as u64, walks])[..] else { unreachable!() };
        let css = format!("{CSS}{BOXES}{} {{ {} }}", names[who], list[d].css);
        ctx.begin(&format!("{html}\n{css}"));
        let mut view = view(&html, &css)?;
        let mut sim = Sim::default();
        let walk = digits(walk as u64, n, depth);
        for i in &walk {
            run(&mut view, &mut sim, &Step::new(json!({})).event(points[*i]), &POINTER, false, ctx)?;
        }
        // and it has none when some are hidden, or do not accept the pointer, under it
        for value in [json!({"cc": "h", "cb": "h"}), json!({"ca": "n", "cd": "n"}), json!({"ca": "h", "cb": "y", "cd": "y"})] {
            let step = Step::new(value).event(points[walk[0]]);
            run(&mut view, &mut sim, &step, &POINTER, false, ctx)?;
        }
        Ok(())
    })
}
