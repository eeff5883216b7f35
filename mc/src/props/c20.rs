use super::motion::{V::*, *};
use super::ui::to;
use super::*;
use bumaga::Fragment;

/// Reference of one property of one element.
#[derive(Clone, Debug, Default)]
struct Mover {
    /// declared value before, where it moves from, time since the change
    moving: Option<(V, V, f64)>,
}

impl Mover {
    /// The value shown in an update.
    fn update(
        &mut self,
        declared: Option<V>,
        transition: Option<(f64, f64)>,
        dt: f64,
    ) -> Option<V> {
        let Some(to) = declared else {
            self.moving = None;
            return None;
        };
        let Some((duration, delay)) = transition else {
            self.moving = None;
            return Some(to);
        };
        let Some((old, from, time)) = self.moving else {
            self.moving = Some((to, to, 0.0));
            return Some(to);
        };
        if duration == 0.0 {
            self.moving = None;
            return Some(to);
        }
        let time = time + dt;
        let shown = between(from, old, ((time - delay) / duration).clamp(0.0, 1.0));
        self.moving = Some(if old == to {
            (to, from, time)
        } else {
            (to, shown, 0.0)
        });
        Some(shown)
    }
}

fn target<'a>(body: &'a Fragment<'a>) -> Fragment<'a> {
    body.children().into_iter().next().unwrap()
}

const SETS: &[(&str, &[V])] = &[
    ("width", &[Px(10.0), Px(42.0), Zero]),
    ("height", &[Pct(25.0), Pct(75.0), Zero]),
    ("opacity", &[N(1.0), Zero, N(0.25)]),
    (
        "color",
        &[
            Color([0, 100, 200, 255]),
            Color([40, 0, 250, 0]),
            Color([255, 255, 255, 255]),
        ],
    ),
    ("left", &[Px(-16.0), Px(64.5), Px(-1.0)]),
    ("font-size", &[Px(8.0), Px(24.0), Px(16.0)]),
    (
        "visibility",
        &[Word("visible"), Word("hidden"), Word("visible")],
    ),
    ("padding-right", &[Px(4.0), Pct(50.0), Px(8.0)]),
    ("margin-top", &[Px(4.0), Em(2.0), Em(5.0)]),
    ("width", &[Vh(4.0), Em(2.0), Zero]),
];

const TIMINGS: &[(f64, f64)] = &[
    (1.0, 0.0),
    (0.5, 0.0),
    (1.0, 0.5),
    (0.0, 0.0),
    (2.0, 0.25),
    (0.0, 1.0),
    (0.5, -0.25),
];

fn transition(property: &str, (duration, delay): (f64, f64), form: usize) -> String {
    match form {
        0 if delay == 0.0 => format!("transition: {property} {duration}s;"),
        0 => format!("transition: {property} {duration}s; transition-delay: {delay}s;"),
        1 => format!("transition: {property} {duration}s linear {delay}s;"),
        _ => format!(
            "transition-property: {property}; transition-duration: {}ms; transition-delay: {}ms;",
            duration * 1000.0,
            delay * 1000.0
        ),
    }
}

/// One property with any changes of its value.
fn moves(thorough: bool) -> Family {
    let times: &[f32] = if thorough {
        &[0.25, 1.0, 0.0625]
    } else {
        &[0.25, 1.0]
    };
    let n = 3 * times.len() as u64;
    let depth = 4;
    let per = n.pow(depth as u32);
    let forms = if thorough { 6 } else { 2 };
    let bases = [SETS.len() as u64, TIMINGS.len() as u64, forms];
    Family::new(
        "moves",
        per * bases.iter().product::<u64>(),
        move |index, ctx| {
            let m = mixed(index / per, &bases);
            let ((property, values), timing) = (SETS[m[0]], TIMINGS[m[1]]);
            let (by_class, form) = if forms == 2 {
                (m[2] == 1, (m[0] + m[1]) % 3)
            } else {
                (m[2] % 2 == 1, m[2] / 2)
            };
            let declared = transition(property, timing, form);
            let (html, css) = if by_class {
                let rules: String = (0..3)
                    .map(|i| {
                        format!(
                            ".c{} {{ {property}: {}; }}\n",
                            ["a", "b", "c"][i],
                            values[i].css()
                        )
                    })
                    .collect();
                (
                    "<html><body><div @class=\"{class}\"></div></body></html>",
                    format!("div {{ {declared} }}\n{rules}"),
                )
            } else {
                (
                    "<html><body><div @style=\"{style}\"></div></body></html>",
                    format!("div {{ {property}: 0; {declared} }}"),
                )
            };
            ctx.begin(&format!("{html}\n{css}"));
            let mut view = view(html, &css)?;
            let mut mover = Mover::default();
            for k in 0..=depth {
                let (i, dt) = match k {
                    0 => (0, 0.5),
                    _ => {
                        let d = digits(index % per, n, depth)[k - 1];
                        (d % 3, times[d / 3])
                    }
                };
                let step = Step::new(json!({
                "class": format!("c{}", ["a", "b", "c"][i]), "style": format!("{property}: {};", values[i].css())
            }))
            .time(dt);
                step.run(&mut view)?;
                let expected = mover
                    .update(Some(values[i]), Some(timing), dt as f64)
                    .unwrap();
                let body = view.body();
                let result = shows(&look(&target(&body)), property, expected);
                ctx.step(&step.label(), result.as_deref().unwrap_or(""));
                result.map_err(|e| format!("update {k}: {e}"))?;
            }
            Ok(())
        },
    )
}

/// Elements with the same transition, changed one by one by classes or the pointer.
fn elements(thorough: bool) -> Family {
    let timings = [(1.0, 0.0), (0.5, 0.25), (2.0, 0.0)];
    let times = [0.25f32, 1.0, 2048.125];
    let values = [Px(10.0), Px(42.0)];
    // toggle one of three, point at one of them or outside
    let acts = 7 * times.len() as u64;
    let depth = if thorough { 4 } else { 3 };
    let per = acts.pow(depth as u32);
    let html = "<html><body><div @class=\"{a}\"></div><div *i=\"2 {l}\" @class=\"{i}\"></div></body></html>";
    Family::new("elements", per * timings.len() as u64, move |index, ctx| {
        let timing = timings[(index / per) as usize];
        // x = 45 is inside of an element wherever it moves
        let css = format!(
            "body {{ width: 40px; height: 60px; }} div {{ width: 40px; height: 20px; left: 10px; {} }} .on {{ left: 42px; }} div:hover {{ left: 42px; }} .on:hover {{ left: 10px; }}",
            transition("left", timing, 1)
        );
        ctx.begin(&css);
        let mut view = view(html, &css)?;
        let mut on = [false; 3];
        let mut pointed = 3;
        let mut movers = [Mover::default(), Mover::default(), Mover::default()];
        for d in std::iter::once(6).chain(digits(index % per, acts, depth)) {
            let dt = times[d / 7];
            let act = d % 7;
            // styles of an update know the pointer of the last one
            let hovered = pointed;
            if act < 3 {
                on[act] = !on[act];
            } else {
                pointed = act - 3;
            }
            let class = |i: usize| if on[i] { "on" } else { "" };
            let mut step = Step::new(json!({"a": class(0), "l": [class(1), class(2)]})).time(dt);
            if act >= 3 {
                step = step.event(to(45.0, 10.0 + 20.0 * pointed as f32));
            }
            step.run(&mut view)?;
            let body = view.body();
            let mut seen = String::new();
            for (i, f) in body.children().iter().enumerate() {
                let declared = values[(on[i] != (hovered == i)) as usize];
                let expected = movers[i]
                    .update(Some(declared), Some(timing), dt as f64)
                    .unwrap();
                let result = shows(&look(f), "left", expected);
                seen.push_str(result.as_deref().unwrap_or(""));
                result.map_err(|e| format!("element {i}: {e}"))?;
            }
            ctx.step(&step.label(), &seen);
        }
        Ok(())
    })
}

/// Elements without any attribute, two properties which change with the pointer.
fn pointed(thorough: bool) -> Family {
    let timings = [(1.0, 0.0), (0.5, 0.25), (2.0, 0.0), (0.0, 0.0)];
    let times = if thorough { vec![0.25f32, 1.0, 0.5] } else { vec![0.25f32, 1.0] };
    let acts = 4 * times.len() as u64;
    let depth = 4;
    let per = acts.pow(depth as u32);
    let html = "<html><body><div></div><div></div><p><div></div></p></body></html>";
    Family::new("pointed", per * 16, move |index, ctx| {
        let m = mixed(index / per, &[4, 4]);
        let (t, u) = (timings[m[0]], timings[m[1]]);
        let css = format!(
            "body {{ width: 40px; height: 60px; }} p {{ height: 20px; }} div {{ width: 40px; height: 20px; left: 10px; opacity: 1; transition-property: left, opacity; transition-duration: {}s, {}s; transition-delay: {}s, {}s; }} div:hover {{ left: 42px; opacity: 0.25; }} p:hover {{ opacity: 0.5; }}",
            t.0, u.0, t.1, u.1
        );
        ctx.begin(&css);
        let mut view = view(html, &css)?;
        let mut pointed = 3;
        let mut movers: Vec<[Mover; 2]> = vec![Default::default(); 3];
        for d in std::iter::once(3).chain(digits(index % per, acts, depth)) {
            let dt = times[d / 4];
            // styles of an update know the pointer of the last one
            let hovered = pointed;
            pointed = d % 4;
            let step = Step::new(json!({})).time(dt).event(to(45.0, 10.0 + 20.0 * pointed as f32));
            step.run(&mut view)?;
            let body = view.body();
            let kids = body.children();
            let inner = kids[2].children();
            let elements = [&kids[0], &kids[1], &inner[0]];
            let mut seen = String::new();
            for (i, f) in elements.into_iter().enumerate() {
                let on = hovered == i;
                let left = if on { Px(42.0) } else { Px(10.0) };
                let opacity = if on { N(0.25) } else { N(1.0) };
                for (name, declared, timing, mover) in [("left", left, t, 0), ("opacity", opacity, u, 1)] {
                    let expected = movers[i][mover].update(Some(declared), Some(timing), dt as f64).unwrap();
                    let result = shows(&look(f), name, expected);
                    seen.push_str(result.as_deref().unwrap_or(""));
                    result.map_err(|e| format!("element {i}: {e}"))?;
                }
            }
            ctx.step(&step.label(), &seen);
        }
        Ok(())
    })
}

/// Transitions and values which come and go, two properties at once.
fn declared(name: &'static str, chosen: [&'static [usize]; 3], depth: usize) -> Family {
    // classes: transitions of width and height
    let transitions: [(&str, [Option<(f64, f64)>; 2]); 7] = [
        ("ww", [Some((1.0, 0.0)), None]),
        ("", [None, None]),
        ("wh", [Some((1.0, 0.0)), Some((0.5, 0.25))]),
        ("hw", [Some((1.0, 0.0)), Some((0.5, 0.25))]),
        ("hh", [None, Some((0.5, 0.25))]),
        ("ww no", [None, None]),
        ("zw", [Some((0.0, 0.0)), None]),
    ];
    let values: [(&str, [Option<V>; 2]); 4] = [
        ("xa", [Some(Px(8.0)), Some(Px(16.0))]),
        ("xb", [Some(Px(40.0)), Some(Px(16.0))]),
        ("xc", [Some(Px(24.0)), Some(Px(64.0))]),
        ("", [None, Some(Px(32.0))]),
    ];
    let css = ".xa { width: 8px; height: 16px; } .xb { width: 40px; height: 16px; } .xc { width: 24px; height: 64px; }
        div { height: 32px; } div.xa { height: 16px; } div.xb { height: 16px; } div.xc { height: 64px; }
        .ww { transition: width 1s; } .hh { transition: height 0.5s linear 0.25s; }
        .wh { transition: width 1s linear 0s, height 0.5s linear 0.25s; }
        .hw { transition-property: height, width; transition-duration: 0.5s, 1s; transition-delay: 0.25s, 0s; }
        .zw { transition: width 0s; } .no { transition-property: none; }";
    let html = "<html><body><div @class=\"{class}\"></div></body></html>";
    let all = chosen.iter().map(|c| c.len() as u64).product::<u64>();
    let per = all.pow(depth as u32);
    Family::new(name, per, move |index, ctx| {
        ctx.begin(css);
        let mut view = view(html, css)?;
        let mut movers = [Mover::default(), Mover::default()];
        let mut before: Option<(usize, usize)> = None;
        for d in digits(index % per, all, depth) {
            let m = mixed(d as u64, &chosen.map(|c| c.len() as u64));
            let m: Vec<usize> = (0..3).map(|i| chosen[i][m[i]]).collect();
            let running = movers[0].moving.is_some_and(|(to, from, _)| to != from);
            if before.is_some_and(|(t, v)| (v != m[1] || running) && (t == 6) != (m[0] == 6)) {
                // whether a change together with a new duration moves is left open
                return Ok(());
            }
            before = Some((m[0], m[1]));
            let ((t, timings), (v, values)) = (&transitions[m[0]], &values[m[1]]);
            let dt = [0.25f32, 0.5][m[2]];
            let step = Step::new(json!({"class": format!("{t} {v}")})).time(dt);
            step.run(&mut view)?;
            let body = view.body();
            let look = look(&target(&body));
            let mut seen = vec![];
            let mut error = None;
            for (i, property) in ["width", "height"].into_iter().enumerate() {
                // a transition starts with the update after the one which first declares it
                let expected = movers[i]
                    .update(values[i], timings[i], dt as f64)
                    .unwrap_or(unset(property));
                match shows(&look, property, expected) {
                    Ok(text) => seen.push(text),
                    Err(e) => error = Some(e),
                }
            }
            ctx.step(&step.label(), &seen.join("|"));
            if let Some(e) = error {
                return Err(format!("class \"{t} {v}\": {e}"));
            }
        }
        Ok(())
    })
}

/// Several layers of a background move together.
fn layers(thorough: bool) -> Family {
    let lists: [&[[u8; 4]]; 4] = [
        &[[0, 0, 0, 255], [0, 200, 0, 255]],
        &[[200, 0, 0, 255], [0, 200, 0, 255]],
        &[[0, 0, 0, 255], [0, 0, 100, 255]],
        &[[200, 0, 0, 255], [0, 0, 100, 255]],
    ];
    let html = "<html><body><div @style=\"background-color: {list};\"></div></body></html>";
    let css = "div { transition: background-color 1s; }";
    let depth = if thorough { 5 } else { 4 };
    Family::new("layers", 8u64.pow(depth as u32), move |index, ctx| {
        ctx.begin(css);
        let mut view = view(html, css)?;
        // the list is one value: any change starts all layers again
        let mut current: Option<(usize, [[f64; 4]; 2], f64)> = None;
        for d in digits(index, 8, depth) {
            let (i, dt) = (d % 4, [0.25f32, 0.5][d / 4]);
            let list: Vec<String> = lists[i].iter().map(|c| Color(*c).css()).collect();
            let step = Step::new(json!({"list": list.join(", ")})).time(dt);
            step.run(&mut view)?;
            let expected = match &mut current {
                None => {
                    let now = [0, 1].map(|k| lists[i][k].map(|c| c as f64));
                    current = Some((i, now, 0.0));
                    now
                }
                Some((old, from, time)) => {
                    *time += dt as f64;
                    let t = time.min(1.0);
                    let mut now = *from;
                    for k in 0..2 {
                        for c in 0..4 {
                            now[k][c] += (lists[*old][k][c] as f64 - now[k][c]) * t;
                        }
                    }
                    if *old != i {
                        current = Some((i, now, 0.0));
                    }
                    now
                }
            };
            let body = view.body();
            let f = target(&body);
            let seen: Vec<[u8; 4]> = f.backgrounds.iter().map(|b| b.color).collect();
            ctx.step(&step.label(), &format!("{seen:?}"));
            let near = seen.len() == 2
                && (0..2)
                    .all(|k| (0..4).all(|c| (seen[k][c] as f64 - expected[k][c]).abs() <= 2.0));
            if !near {
                return Err(format!("layers are {seen:?}, expected {expected:?}"));
            }
        }
        Ok(())
    })
}

/// Every value of every property once: shown before, at the change, in the delay and after the end.
fn everything(thorough: bool) -> Family {
    let mut pairs: Vec<(&'static str, String, String)> = vec![];
    let list = super::decls::spread(if thorough { 30 } else { 6 });
    for a in &list {
        for b in list.iter().filter(|b| b.property == a.property) {
            pairs.push((a.property, a.css.clone(), b.css.clone()));
        }
    }
    // shorthands are no properties with own values
    let shorthands = [
        "margin",
        "padding",
        "border",
        "border-top",
        "border-right",
        "border-bottom",
        "border-left",
        "border-width",
        "border-color",
        "border-radius",
        "inset",
        "gap",
        "overflow",
        "background",
        "background-position",
    ];
    // and lists of different lengths are left out
    let list = |css: &str| {
        let mut depth = 0;
        css.chars().any(|c| {
            depth += (c == '(') as i32 - (c == ')') as i32;
            c == ',' && depth == 0
        })
    };
    pairs.retain(|p| !shorthands.contains(&p.0) && !list(&p.1) && !list(&p.2));
    let html = "<html><body><main><div @style=\"{style}\"></div></main></body></html>";
    let plain = "main { width: 80px; font-size: 20px; color: #102030; }";
    Family::new("everything", pairs.len() as u64, move |index, ctx| {
        let (property, a, b) = &pairs[index as usize];
        let css = format!("{plain} div {{ transition: {property} 0.5s linear 0.25s; }}");
        ctx.begin(&css);
        let mut moving = view(html, &css)?;
        for (declared, expected, dt) in [
            (a, a, 1.0),
            (a, a, 0.125),
            (b, a, 0.125),
            (b, a, 0.25),
            (b, b, 0.5),
            (b, b, 0.125),
            (a, b, 9.0),
            (a, b, 0.125),
            (a, a, 1.0),
        ] {
            let step = Step::new(json!({ "style": declared })).time(dt);
            step.run(&mut moving)?;
            let mut fresh = view(html, plain)?;
            Step::new(json!({ "style": expected })).run(&mut fresh)?;
            let result = same_look(&moving.body(), &fresh.body(), "body");
            ctx.step(&step.label(), &format!("{result:?}"));
            result.map_err(|e| format!("from {a} to {b}, declared {declared}: {e}"))?;
        }
        Ok(())
    })
}

/// Nothing hangs or gives values which are not numbers.
fn extremes(thorough: bool) -> Family {
    let seconds = [
        "0s",
        "-1s",
        "0.0001s",
        "1s",
        "99999999999999999999s",
        "-99999999999999999999s",
        "0.00000000000000000000000000000000000001s",
    ];
    let times = [0.0f32, 1e-9, 0.3, 1e9, 1e19];
    let declared = [
        "",
        "width: 4px; opacity: 0.5; color: red;",
        "width: 0; opacity: 1; color: blue;",
        "width: 50%; opacity: x; color: nothing;",
    ];
    let lists = [
        "width {d}, opacity {d}, color {d}",
        "opacity {d}",
        "all {d}, nothing {d}, width {d}",
        "width {d}, width {d}",
    ];
    let depth = if thorough { 3 } else { 2 };
    let n = 20u64;
    let per = n.pow(depth as u32 - 1) * 4;
    let bases = [7, 7, 4];
    Family::new(
        "extremes",
        per * bases.iter().product::<u64>(),
        move |index, ctx| {
            let m = mixed(index / per, &bases);
            let html = "<html><body><div @style=\"{style}\">a</div></body></html>";
            let css = format!(
                "div {{ transition: {}; }}",
                lists[m[2]].replace(
                    "{d}",
                    &format!("{} linear {}", seconds[m[0]], seconds[m[1]])
                )
            );
            ctx.begin(&css);
            let mut view = view(html, &css)?;
            let mut rest = index % per;
            for k in 0..depth {
                let (i, dt) = if k == 0 {
                    (rest % 4, 1.0)
                } else {
                    (rest % 4, times[((rest / 4) % 5) as usize])
                };
                rest /= if k == 0 { 4 } else { 20 };
                let step = Step::new(json!({"style": declared[i as usize]})).time(dt);
                step.run(&mut view)?;
                let result = finite(&view.body());
                ctx.step(&step.label(), result.as_deref().unwrap_or(""));
                result?;
            }
            Ok(())
        },
    )
}

/// Every few changes after each other in one view.
fn long(thorough: bool) -> Family {
    let times = [0.25f32, 1.0];
    let order = super::long::tour(6, if thorough { 5 } else { 3 });
    Family::new("long", SETS.len() as u64 * TIMINGS.len() as u64 * 2, move |index, ctx| {
        let m = mixed(index, &[SETS.len() as u64, TIMINGS.len() as u64, 2]);
        let ((property, values), timing) = (SETS[m[0]], TIMINGS[m[1]]);
        let (html, rules) = if m[2] == 0 {
            let rules: String = (0..3).map(|i| format!(".c{i} {{ {property}: {}; }}\n", values[i].css())).collect();
            ("<html><body><div @class=\"{class}\"></div></body></html>", rules)
        } else {
            ("<html><body><div @style=\"{style}\"></div></body></html>", String::new())
        };
        let css = format!("div {{ {property}: 0; {} }}\n{rules}", transition(property, timing, (m[0] + m[1]) % 3));
        ctx.begin(&format!("{html}\n{css}"));
        let mut view = view(html, &css)?;
        let mut mover = Mover::default();
        for (n, d) in order.iter().enumerate() {
            let (i, dt) = (d % 3, times[d / 3]);
            let step = Step::new(json!({"class": format!("c{i}"), "style": format!("{property}: {};", values[i].css())})).time(dt);
            step.run(&mut view)?;
            let expected = mover.update(Some(values[i]), Some(timing), dt as f64).unwrap();
            let body = view.body();
            let result = shows(&look(&target(&body)), property, expected);
            ctx.step(&step.label(), result.as_deref().unwrap_or(""));
            result.map_err(|e| format!("update {n}: {e}"))?;
        }
        Ok(())
    })
}

/// Many properties move at once, each with a timing of its own.
fn many() -> Family {
    const LIST: [usize; 8] = [1, 0, 4, 5, 3, 7, 2, 6];
    Family::new("many", LIST.len() as u64 * 2, move |index, ctx| {
        let n = (index / 2) as usize + 1;
        let list = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(", ");
        let timing = |i: usize| [(1.0, 0.0), (0.5, 0.25), (2.0, 0.0), (1.0, 0.5)][i % 4];
        let name = |i: usize| SETS[LIST[i]].0;
        let declared = if index % 2 == 0 {
            format!("transition: {};", list(&|i| format!("{} {}s linear {}s", name(i), timing(i).0, timing(i).1)))
        } else {
            format!(
                "transition-property: {}; transition-duration: {}; transition-delay: {};",
                list(&|i| name(i).to_string()),
                list(&|i| format!("{}s", timing(i).0)),
                list(&|i| format!("{}s", timing(i).1))
            )
        };
        let css = format!("div {{ {declared} }}");
        ctx.begin(&css);
        let mut view = view("<html><body><div @style=\"{style}\"></div></body></html>", &css)?;
        let mut movers = vec![Mover::default(); LIST.len()];
        let mut state = [0usize; LIST.len()];
        // one changes or all do, after a short or a long time
        for act in super::long::tour((n + 1) * 2, 2) {
            let (which, dt) = (act % (n + 1), [0.25f32, 1.0][act / (n + 1)]);
            for i in 0..LIST.len() {
                // those without a transition change with the first
                if which == n || which == i.min(n - 1) {
                    state[i] = (state[i] + 1) % 3;
                }
            }
            let style: String = (0..LIST.len()).map(|i| format!("{}: {}; ", name(i), SETS[LIST[i]].1[state[i]].css())).collect();
            let step = Step::new(json!({"style": style})).time(dt);
            step.run(&mut view)?;
            let body = view.body();
            let look = look(&target(&body));
            let mut seen = vec![];
            let mut error = None;
            for i in 0..LIST.len() {
                let timing = if i < n { Some(timing(i)) } else { None };
                let expected = movers[i].update(Some(SETS[LIST[i]].1[state[i]]), timing, dt as f64).unwrap();
                match shows(&look, name(i), expected) {
                    Ok(text) => seen.push(text),
                    Err(e) => error = Some(e),
                }
            }
            ctx.step(&step.label(), &seen.join("|"));
            if let Some(e) = error {
                return Err(e);
            }
        }
        Ok(())
    })
}

pub fn plan(thorough: bool) -> Plan {
    (
        vec![
            moves(thorough),
            long(thorough),
            many(),
            declared(
                "declared",
                [&[0, 1, 2, 3, 4, 5, 6], &[0, 1, 2, 3], &[0, 1]],
                if thorough { 4 } else { 3 },
            ),
            declared(
                "declared-long",
                [&[0, 1, 6], &[0, 1], &[1]],
                if thorough { 8 } else { 5 },
            ),
            elements(thorough),
            pointed(thorough),
            layers(thorough),
            everything(thorough),
            extremes(thorough),
        ],
        assumed(&[
            "times and durations are exact binary fractions; other times only for hangs and values",
        ]),
    )
}
