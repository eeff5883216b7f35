use super::motion::{V::*, *};
use super::*;
use bumaga::Fragment;

type Frames = &'static [(&'static str, &'static [(&'static str, V)])];

/// Keyframes of one animation, with the values declared on the element.
struct Set {
    frames: Frames,
    base: &'static [(&'static str, V)],
}

const RED: V = Color([200, 16, 0, 255]);
const BLUE: V = Color([0, 116, 250, 128]);

const CLEAR: V = Color([0, 0, 0, 0]);

const SETS: &[Set] = &[
    Set { frames: &[("0%", &[("width", Px(10.0))]), ("100%", &[("width", Px(30.0))])], base: &[] },
    Set { frames: &[("from", &[("opacity", Zero)]), ("to", &[("opacity", N(1.0))])], base: &[] },
    Set { frames: &[("50%", &[("left", Px(20.5)), ("color", RED)])], base: &[("left", Px(-4.0)), ("color", BLUE)] },
    Set {
        frames: &[
            ("0%", &[("width", Px(8.0)), ("background-color", RED)]),
            ("25%", &[("width", Px(16.0)), ("opacity", N(0.5))]),
            ("75%", &[("background-color", BLUE), ("left", Px(-8.0))]),
            ("100%", &[("width", Zero), ("left", Zero), ("background-color", RED)]),
        ],
        base: &[("left", Px(100.0)), ("opacity", N(0.25))],
    },
    Set { frames: &[("to", &[("font-size", Px(48.0)), ("flex-grow", N(3.0))])], base: &[("font-size", Px(20.0))] },
    Set { frames: &[("from", &[("padding-right", Px(12.0)), ("margin-top", Px(-6.0))])], base: &[("margin-top", Px(6.0))] },
    Set { frames: &[("0%", &[("width", Zero), ("height", Pct(20.0))]), ("100%", &[("width", Pct(50.0)), ("height", Pct(80.0))])], base: &[] },
    Set { frames: &[("0%", &[("visibility", Word("hidden")), ("width", Word("auto"))]), ("80%", &[("visibility", Word("visible")), ("width", Px(5.0))])], base: &[("width", Pct(10.0))] },
    // out of order
    Set {
        frames: &[("100%", &[("height", Px(7.0))]), ("30%", &[("height", Px(1.0))]), ("0%", &[("height", Px(2.0))]), ("99%", &[("height", Px(0.5))]), ("1%", &[("height", Px(3.0))])],
        base: &[("height", Px(60.0))],
    },
    Set { frames: &[("10%", &[("border-top-width", Px(4.0))]), ("90%", &[("border-left-color", RED), ("border-top-width", Zero)])], base: &[("border-left-color", BLUE)] },
    Set { frames: &[("0%", &[("opacity", N(1.0)), ("left", Px(9.0)), ("width", Pct(40.0))]), ("100%", &[("opacity", Zero), ("left", Zero), ("width", Zero)])], base: &[] },
    Set { frames: &[("from", &[("font-weight", N(100.0))]), ("50%", &[("font-weight", N(500.0))]), ("to", &[("font-weight", N(900.0))])], base: &[] },
    // two blocks for one step
    Set {
        frames: &[("50%", &[("width", Px(40.0)), ("left", Px(6.0))]), ("to", &[("height", Px(9.0))]), ("50%", &[("opacity", N(0.5)), ("left", Px(12.0))]), ("100%", &[("width", Px(90.0))])],
        base: &[("width", Px(10.0)), ("height", Px(1.0)), ("left", Zero)],
    },
    // lengths of other units
    Set {
        frames: &[("0%", &[("width", Em(1.0)), ("left", Px(10.0)), ("height", Vh(2.0))]), ("50%", &[("left", Em(2.0)), ("margin-top", Em(1.5))]), ("100%", &[("width", Em(4.0)), ("left", Vh(8.0)), ("height", Zero)])],
        base: &[("margin-top", Pct(25.0))],
    },
    // to and from nothing
    Set {
        frames: &[("0%", &[("color", CLEAR), ("background-color", RED), ("opacity", N(1.0))]), ("75%", &[("background-color", CLEAR)]), ("100%", &[("color", RED), ("opacity", Zero)])],
        base: &[("background-color", Color([255, 255, 255, 1]))],
    },
];

fn block(list: &[(&str, V)]) -> String {
    list.iter().map(|(p, v)| format!("{p}: {}; ", v.css())).collect()
}

fn keyframes(name: &str, frames: Frames) -> String {
    let inner: String = frames.iter().map(|(s, d)| format!("{s} {{ {}}} ", block(d))).collect();
    format!("@keyframes {name} {{ {inner}}}\n")
}

fn percent(step: &str) -> f64 {
    match step {
        "from" => 0.0,
        "to" => 100.0,
        s => s.trim_end_matches('%').parse().unwrap(),
    }
}

#[derive(Clone, Copy, Debug)]
struct Timing {
    duration: f64,
    delay: f64,
    /// None: infinite
    count: Option<f64>,
}

/// Possible progress values (percent) after a time; none before the delay is over.
fn progress(t: &Timing, elapsed: f64) -> Vec<u32> {
    let mut e = elapsed - t.delay;
    if e < 0.0 {
        return vec![];
    }
    let mut last = false;
    if let Some(n) = t.count {
        if e >= n * t.duration {
            e = n * t.duration;
            last = true;
        }
    }
    let rest = e % t.duration;
    if rest == 0.0 && e > 0.0 {
        // between two iterations both keyframes are fine
        return if last { vec![100] } else { vec![100, 0] };
    }
    vec![(rest / t.duration * 100.0).floor() as u32]
}

fn base_value(base: &[(&str, V)], property: &str) -> V {
    base.iter().find(|b| b.0 == property).map(|b| b.1).unwrap_or(unset(property))
}

/// Value of a property at a progress; none if the animation does not touch it.
fn at(frames: Frames, base: &[(&str, V)], property: &str, p: u32) -> Option<V> {
    let mut points: Vec<(f64, V)> = vec![];
    for (step, list) in frames {
        for (name, value) in *list {
            if *name == property {
                points.retain(|x| x.0 != percent(step));
                points.push((percent(step), *value));
            }
        }
    }
    if points.is_empty() {
        return None;
    }
    points.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    if points[0].0 > 0.0 {
        points.insert(0, (0.0, base_value(base, property)));
    }
    if points[points.len() - 1].0 < 100.0 {
        points.push((100.0, base_value(base, property)));
    }
    let p = p as f64;
    let (a, b) = (points.iter().rev().find(|x| x.0 <= p)?, points.iter().find(|x| x.0 >= p)?);
    if a.0 == b.0 {
        return Some(a.1);
    }
    Some(between(a.1, b.1, (p - a.0) / (b.0 - a.0)))
}

/// All properties show one of the allowed progress values.
fn judge(f: &Fragment, sets: &[(Frames, Vec<u32>)], base: &[(&str, V)]) -> Result<String, String> {
    let mut seen = String::new();
    let shown = look(f);
    for (property, _, _) in PROPERTIES {
        let mut expected = vec![];
        for (frames, steps) in sets {
            let values: Vec<V> = steps.iter().filter_map(|p| at(frames, base, property, *p)).collect();
            if !values.is_empty() {
                expected = values;
            }
        }
        if expected.is_empty() {
            expected.push(base_value(base, property));
        }
        let results: Vec<_> = expected.iter().map(|v| shows(&shown, property, *v)).collect();
        match results.iter().find_map(|r| r.as_ref().ok()) {
            Some(text) => {
                seen.push_str(text);
                seen.push('|');
            }
            None => {
                return Err(format!("{} (progress {:?})", results[0].as_ref().unwrap_err(), sets.iter().map(|s| &s.1).collect::<Vec<_>>()))
            }
        }
    }
    Ok(seen)
}

fn second(x: f64, form: usize) -> String {
    if form == 1 {
        format!("{}ms", x * 1000.0)
    } else {
        format!("{x}s")
    }
}

/// Declarations of an animation in several ways.
fn declaration(name: &str, t: &Timing, form: usize) -> String {
    let count = match t.count {
        None => "infinite".to_string(),
        Some(n) => format!("{n:?}"),
    };
    let (duration, delay) = (second(t.duration, form), second(t.delay, form));
    match form {
        0 | 1 => format!("animation-name: {name}; animation-duration: {duration}; animation-delay: {delay}; animation-iteration-count: {count};"),
        2 => format!("animation: {duration} linear {name}; animation-delay: {delay}; animation-iteration-count: {count};"),
        3 => format!("animation: {duration} {name}; animation-iteration-count: {count}; animation-delay: {delay};"),
        4 => format!("animation: {duration} ease {delay} {name}; animation-iteration-count: {count};"),
        _ => format!("animation: {duration} linear {count} {name}; animation-delay: {delay};"),
    }
}

fn target<'a>(body: &'a Fragment<'a>) -> Fragment<'a> {
    body.children().into_iter().next().unwrap()
}

const TIMES: [f32; 6] = [0.25, 0.0625, 0.5, 1.0, 0.0, 2.8125];

/// One animation from the start with any split of the time.
fn timelines(thorough: bool) -> Family {
    let mut configs = vec![];
    for (i, duration) in [1.0, 0.5, 2.0].into_iter().enumerate() {
        for (j, delay) in [0.0, 0.5, -0.25, -2.25].into_iter().enumerate() {
            for (k, count) in [Some(1.0), Some(2.0), None, Some(2.5), Some(0.5)].into_iter().enumerate() {
                let t = Timing { duration, delay, count };
                configs.push((t, (i + j + k) % 6));
                if thorough {
                    for more in 1..6 {
                        configs.push((t, (i + j + k + more) % 6));
                    }
                }
            }
        }
    }
    let n = TIMES.len() as u64;
    let depth = if thorough { 4 } else { 3 };
    let per = n.pow(depth as u32);
    let count = per * configs.len() as u64 * SETS.len() as u64;
    Family::new("timelines", count, move |index, ctx| {
        let m = mixed(index / per, &[configs.len() as u64, SETS.len() as u64]);
        let ((timing, form), set) = (configs[m[0]], &SETS[m[1]]);
        let html = "<html><body><div></div></body></html>";
        let css = format!("{}div {{ {}{} }}", keyframes("Move", set.frames), block(set.base), declaration("Move", &timing, form));
        ctx.begin(&css);
        let mut view = view(html, &css)?;
        let mut elapsed = 0.0;
        for k in 0..=depth {
            let dt = if k == 0 { 0.5 } else { TIMES[digits(index % per, n, depth)[k - 1]] };
            let step = Step::new(json!({})).time(dt);
            step.run(&mut view)?;
            let mut steps = vec![];
            if k > 0 {
                elapsed += dt as f64;
                steps = progress(&timing, elapsed);
            }
            let body = view.body();
            let result = judge(&target(&body), &[(set.frames, steps)], set.base);
            ctx.step(&step.label(), result.as_deref().unwrap_or(""));
            result.map_err(|e| format!("after {elapsed} s: {e}"))?;
        }
        Ok(())
    })
}

/// Pausing at any moment, with changes of the values without animation.
fn pauses(thorough: bool) -> Family {
    let frames: Frames = &[("50%", &[("left", Px(32.0)), ("color", RED)]), ("100%", &[("color", BLUE)])];
    let ways = ["p { animation-play-state: paused; }", "", "p { animation: 1s linear Move; animation-play-state: paused; }"];
    let timings = [
        Timing { duration: 1.0, delay: 0.0, count: Some(1.0) },
        Timing { duration: 2.0, delay: 0.5, count: None },
        Timing { duration: 0.5, delay: -0.25, count: Some(3.0) },
    ];
    let lefts = [Px(-8.0), Px(40.0)];
    let moves = 3 * 2 * 2u64;
    let depth = if thorough { 5 } else { 4 };
    let per = moves.pow(depth as u32);
    Family::new("pauses", per * 9, move |index, ctx| {
        let m = mixed(index / per, &[3, 3]);
        let (timing, way) = (timings[if m[1] == 2 { 0 } else { m[0] }], m[1]);
        if way == 2 && m[0] > 0 {
            return Ok(());
        }
        let html = match way {
            0 | 2 => "<html><body><div @style=\"left: {left}px;\" @class=\"{class}\"></div></body></html>",
            _ => "<html><body><div @style=\"left: {left}px; animation-play-state: {state};\"></div></body></html>",
        };
        let css = format!(
            "{}div {{ color: #000000; {} }} {}",
            keyframes("Move", frames),
            declaration("Move", &timing, 2),
            ways[way].replace("p {", ".off {")
        );
        ctx.begin(&format!("{html}\n{css}"));
        let mut view = view(html, &css)?;
        let mut elapsed = 0.0;
        let mut paused = false;
        for (k, d) in digits(index % per, moves, depth).into_iter().enumerate() {
            let m = mixed(d as u64, &[3, 2, 2]);
            let dt = [0.25, 0.125, 1.0][m[0]];
            let off = m[1] == 1;
            let left = lefts[m[2]];
            let V::Px(number) = left else { unreachable!() };
            let step = Step::new(json!({
                "left": number, "class": if off { "off" } else { "" }, "state": if off { "paused" } else { "running" }
            }))
            .time(dt);
            step.run(&mut view)?;
            let mut steps = vec![];
            if k > 0 {
                // the time up to an update counts with the state before it
                if !paused {
                    elapsed += dt as f64;
                }
                steps = progress(&timing, elapsed);
            }
            paused = off;
            let base = [("left", left), ("color", Color([0, 0, 0, 255]))];
            let body = view.body();
            let result = judge(&target(&body), &[(frames, steps)], &base);
            ctx.step(&step.label(), result.as_deref().unwrap_or(""));
            result.map_err(|e| format!("after {elapsed} s: {e}"))?;
        }
        Ok(())
    })
}

const A: Frames = &[("0%", &[("left", Px(16.0))]), ("100%", &[("left", Px(32.0)), ("width", Px(64.0))])];
const B: Frames = &[("from", &[("height", Px(8.0)), ("color", RED)]), ("to", &[("height", Px(40.0))])];

/// They change properties of each other.
const C: Frames = &[("0%", &[("left", Px(16.0)), ("width", Px(8.0))]), ("50%", &[("left", Px(80.0))]), ("100%", &[("left", Px(32.0)), ("width", Px(64.0))])];
const D: Frames = &[("from", &[("left", Px(200.0)), ("color", RED)]), ("to", &[("left", Px(120.0)), ("color", CLEAR)])];

/// Animations which come and go.
fn declared(name: &str, tracks: [Frames; 2], depth: usize) -> Family {
    // classes, and animations declared then
    let states: Vec<(&str, Vec<usize>)> = vec![
        ("", vec![]),
        ("a", vec![0]),
        ("b", vec![1]),
        ("a b", vec![1]),
        ("both", vec![0, 1]),
        ("a none", vec![]),
        ("turned", vec![1, 0]),
    ];
    let timings = [Timing { duration: 2.0, delay: 0.0, count: Some(1.0) }, Timing { duration: 1.0, delay: 0.25, count: None }];
    let n = states.len() as u64 * 2;
    let per = n.pow(depth as u32);
    Family::new(name, per * 2, move |index, ctx| {
        let inline = index / per == 1;
        let list = |a: usize, b: usize| {
            let (t, u) = (timings[a], timings[b]);
            let name = |i| ["GoA", "GoB"][i];
            let count = |t: Timing| if t.count.is_some() { "1" } else { "infinite" };
            format!(
                "animation-name: {}, {}; animation-duration: {}s, {}s; animation-delay: {}s, {}s; animation-iteration-count: {}, {};",
                name(a), name(b), t.duration, u.duration, t.delay, u.delay, count(t), count(u)
            )
        };
        let one = [declaration("GoA", &timings[0], 2), declaration("GoB", &timings[1], 0)];
        let frames = keyframes("GoA", tracks[0]) + &keyframes("GoB", tracks[1]);
        let style = |class: &str| match class {
            "a" => one[0].clone(),
            "b" | "a b" => one[1].clone(),
            "both" => list(0, 1),
            "turned" => list(1, 0),
            "a none" => format!("{} animation-name: none;", one[0]),
            _ => String::new(),
        };
        let (html, css) = if inline {
            ("<html><body><div @style=\"{style}\"></div></body></html>", format!("{frames}div {{ left: 4px; }}"))
        } else {
            let rules: String = ["a", "b", "both", "turned"].iter().map(|c| format!(".{c} {{ {} }}\n", style(c))).collect();
            (
                "<html><body><div @class=\"{class}\"></div></body></html>",
                format!("{frames}div {{ left: 4px; }}\n{rules}.none {{ animation-name: none; }}"),
            )
        };
        ctx.begin(&format!("{html}\n{css}"));
        let mut view = view(html, &css)?;
        let mut running: [Option<f64>; 2] = [None; 2];
        for d in digits(index % per, n, depth) {
            let (class, active) = &states[d / 2];
            let dt = [0.25f32, 1.0][d % 2];
            let step = Step::new(json!({"class": class, "style": style(class)})).time(dt);
            step.run(&mut view)?;
            let mut sets = vec![];
            for i in 0..2 {
                if !active.contains(&i) {
                    running[i] = None;
                }
            }
            // the last one of the list has the say
            for &i in active {
                match &mut running[i] {
                    // starts with the first update which declares it
                    None => running[i] = Some(0.0),
                    Some(elapsed) => {
                        *elapsed += dt as f64;
                        sets.push((tracks[i], progress(&timings[i], *elapsed)));
                    }
                }
            }
            let base = [("left", Px(4.0))];
            let body = view.body();
            let result = judge(&target(&body), &sets, &base);
            ctx.step(&step.label(), result.as_deref().unwrap_or(""));
            result.map_err(|e| format!("class {class:?}: {e}"))?;
        }
        Ok(())
    })
}

/// Elements with the same animations, started and stopped one by one, also after a long time.
fn elements(thorough: bool) -> Family {
    let timings = [
        Timing { duration: 1.0, delay: 0.0, count: None },
        Timing { duration: 2.0, delay: 0.5, count: Some(2.0) },
        Timing { duration: 0.5, delay: 0.0, count: Some(1.0) },
    ];
    let frames: Frames = &[("0%", &[("left", Px(0.0)), ("color", RED)]), ("100%", &[("left", Px(64.0)), ("color", BLUE)])];
    let times = [0.25f32, 1.0, 4096.0625];
    // what is switched: an element, a rule by place, or nothing
    let acts = 4 * times.len() as u64;
    let depth = if thorough { 5 } else { 4 };
    let per = acts.pow(depth as u32);
    let html = "<html><body><div @class=\"{a}\"></div><div *i=\"2 {l}\" @class=\"{i}\"></div></body></html>";
    Family::new("elements", per * timings.len() as u64, move |index, ctx| {
        let timing = &timings[(index / per) as usize];
        let css = format!("{}div {{ left: 8px; color: #102030; }} .on {{ {} }}", keyframes("Move", frames), declaration("Move", timing, 0));
        ctx.begin(&css);
        let mut view = view(html, &css)?;
        let mut on = [false; 3];
        let mut clocks: [Option<f64>; 3] = [None; 3];
        for d in digits(index % per, acts, depth) {
            let dt = times[d / 4];
            if d % 4 < 3 {
                on[d % 4] = !on[d % 4];
            }
            let class = |i: usize| if on[i] { "on" } else { "" };
            let step = Step::new(json!({"a": class(0), "l": [class(1), class(2)]})).time(dt);
            step.run(&mut view)?;
            let body = view.body();
            let mut seen = String::new();
            for (i, f) in body.children().iter().enumerate() {
                clocks[i] = match clocks[i] {
                    _ if !on[i] => None,
                    None => Some(0.0),
                    Some(t) => Some(t + dt as f64),
                };
                let first = on[i] && clocks[i] == Some(0.0);
                let steps = clocks[i].filter(|_| !first).map(|t| progress(timing, t)).unwrap_or_default();
                let base = [("left", Px(8.0)), ("color", Color([16, 32, 48, 255]))];
                let result = judge(f, &[(frames, steps)], &base);
                seen.push_str(result.as_deref().unwrap_or(""));
                if let Err(e) = result {
                    return Err(format!("element {i} after {:?} s: {e}", clocks[i]));
                }
            }
            ctx.step(&step.label(), &seen);
        }
        Ok(())
    })
}

/// Every declaration in the middle of an animation, between the values without it.
fn everything(thorough: bool) -> Family {
    // without a value for a box sizing and border colors
    let list: Vec<_> = super::decls::spread(if thorough { 12 } else { 6 }).into_iter().filter(|d| d.property != "box-sizing").collect();
    let html = "<html><body><main><div></div></main></body></html>";
    let run = |css: &str, times: &[f32]| -> Result<bumaga::View, String> {
        let mut view = view(html, css)?;
        for t in times {
            Step::new(json!({})).time(*t).run(&mut view)?;
        }
        Ok(view)
    };
    Family::new("everything", list.len() as u64, move |index, ctx| {
        let d = &list[index as usize];
        let css = |frames: &str, own: &str| {
            format!(
                "@keyframes Move {{ {frames} }} main {{ width: 80px; font-size: 20px; color: #102030; }} div {{ border-color: red; animation: 1s linear Move; {own} }}"
            )
        };
        let frames = format!("50% {{ {} }} 75% {{ {} }}", d.css, d.css);
        ctx.begin(&css(&frames, ""));
        for (times, own) in [
            (vec![0.5, 0.0], ""),
            (vec![0.5, 0.5], d.css.as_str()),
            (vec![0.5, 0.625], d.css.as_str()),
            (vec![0.5, 0.75], d.css.as_str()),
            (vec![0.5, 0.5, 0.5], ""),
            (vec![0.5, 2.0], ""),
        ] {
            let seen = run(&css(&frames, ""), &times)?;
            let expected = run(&css("", own), &times)?;
            let result = same_full(&seen.body(), &expected.body(), "body");
            ctx.step(&format!("{times:?}"), &format!("{result:?}"));
            result.map_err(|e| format!("{} after {times:?} s, not as \"{own}\": {e}", d.css))?;
        }
        Ok(())
    })
}

/// Nothing hangs or gives values which are not numbers.
fn extremes(thorough: bool) -> Family {
    let seconds = ["0s", "-1s", "0.0001s", "1ms", "99999999999999999999s", "1s", "-99999999999999999999s", "0.00000000000000000000000000000000000001s"];
    let counts = ["0", "-1", "0.0001", "infinite", "99999999999999999999", "1", "2.5"];
    let times = [0.0f32, 1e-9, 0.3, 7.0, 1e9, 1e19];
    let frames = [
        "0% { width: 1px; opacity: 0; } 100% { width: 3px; opacity: 1; }",
        "",
        "50% { width: 10%; }",
        "150% { width: 3px; } -10% { width: 2px; } foo { width: 9px; }",
        "33.3% { color: red; width: auto; } 33.7% { width: 0; }",
    ];
    let depth = if thorough { 3 } else { 2 };
    let bases = [8, 8, 7, 5];
    let per = 6u64.pow(depth as u32);
    Family::new("extremes", per * bases.iter().product::<u64>(), move |index, ctx| {
        let m = mixed(index / per, &bases);
        let html = "<html><body><div>a</div></body></html>";
        let css = format!(
            "@keyframes Move {{ {} }} div {{ animation-name: Move; animation-duration: {}; animation-delay: {}; animation-iteration-count: {}; }}",
            frames[m[3]], seconds[m[0]], seconds[m[1]], counts[m[2]]
        );
        ctx.begin(&css);
        let mut view = view(html, &css)?;
        for i in digits(index % per, 6, depth + 1) {
            let step = Step::new(json!({})).time(times[i]);
            step.run(&mut view)?;
            let result = finite(&view.body());
            ctx.step(&step.label(), result.as_deref().unwrap_or(""));
            result?;
        }
        Ok(())
    })
}

/// Every pair of times after each other in one view.
fn long(thorough: bool) -> Family {
    let mut timings = vec![];
    for duration in [1.0, 0.5, 8.0] {
        for delay in [0.0, 0.5, -0.25] {
            for count in [None, Some(2.5), Some(16.0), Some(1.0)] {
                timings.push(Timing { duration, delay, count });
            }
        }
    }
    let order = super::long::tour(TIMES.len(), if thorough { 4 } else { 2 });
    Family::new("long", timings.len() as u64 * SETS.len() as u64, move |index, ctx| {
        let m = mixed(index, &[timings.len() as u64, SETS.len() as u64]);
        let (timing, set) = (&timings[m[0]], &SETS[m[1]]);
        let css = format!("{}div {{ {}{} }}", keyframes("Move", set.frames), block(set.base), declaration("Move", timing, m[0] % 3));
        through(&css, &order, &[(set.frames, *timing)], set.base, ctx)
    })
}

fn through(css: &str, order: &[usize], moves: &[(Frames, Timing)], base: &[(&'static str, V)], ctx: &mut crate::engine::Ctx) -> Result<(), String> {
    ctx.begin(css);
    let mut view = view("<html><body><div></div></body></html>", css)?;
    Step::new(json!({})).time(0.5).run(&mut view)?;
    let mut elapsed = 0.0;
    for i in order {
        let step = Step::new(json!({})).time(TIMES[*i]);
        step.run(&mut view)?;
        elapsed += TIMES[*i] as f64;
        let sets: Vec<(Frames, Vec<u32>)> = moves.iter().map(|(f, t)| (*f, progress(t, elapsed))).collect();
        let body = view.body();
        let result = judge(&target(&body), &sets, base);
        ctx.step(&step.label(), result.as_deref().unwrap_or(""));
        result.map_err(|e| format!("after {elapsed} s: {e}"))?;
    }
    Ok(())
}

fn kept<T>(list: Vec<T>) -> &'static [T] {
    Box::leak(list.into_boxed_slice())
}

/// Value number `i` of a property.
fn some_value(property: &str, i: usize) -> V {
    match property {
        "color" | "background-color" | "border-left-color" => Color([(i * 40 % 250) as u8, (i * 70 % 250) as u8, 30, 255]),
        "opacity" => N([1.0, 0.0, 0.5, 0.25][i % 4]),
        "flex-grow" => N(i as f64),
        "font-weight" => N([100.0, 900.0, 500.0][i % 3]),
        "visibility" => Word(["hidden", "visible"][i % 2]),
        _ => Px(8.0 * ((i * 7 + 3) % 11 + 1) as f64),
    }
}

/// Many steps, many animations of one element, many keyframes.
fn many() -> Family {
    let steps = [2usize, 3, 4, 5, 6, 7, 8, 9, 11, 16, 17, 21, 26, 33, 51, 101];
    let mut cases: Vec<(String, Vec<(Frames, Timing)>)> = vec![];
    let timing = |i: usize| Timing { duration: [4.0, 2.0, 1.0][i % 3], delay: [0.0, 0.25, 1.0][i % 3], count: [None, Some(3.0), Some(1.0)][i % 3] };
    for n in steps {
        let list: Vec<_> = (0..n)
            .map(|i| {
                let name: &'static str = Box::leak(format!("{}%", i * 100 / (n - 1)).into_boxed_str());
                (name, kept(vec![("width", some_value("width", i)), ("color", some_value("color", i + i / 6)), (PROPERTIES[i % 14].0, some_value(PROPERTIES[i % 14].0, i))]) as &'static [_])
            })
            .collect();
        let frames: Frames = kept(list);
        cases.push((keyframes("Move", frames) + &format!("div {{ {} }}", declaration("Move", &timing(0), 0)), vec![(frames, timing(0))]));
    }
    let single: Vec<Frames> = PROPERTIES
        .iter()
        .map(|(p, ..)| kept(vec![("0%", kept(vec![(*p, some_value(p, 1))]) as &'static [_]), ("50%", kept(vec![(*p, some_value(p, 3))]) as &'static [_]), ("100%", kept(vec![(*p, some_value(p, 2))]) as &'static [_])]) as Frames)
        .collect();
    for n in 1..=single.len() {
        let list = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(", ");
        let all: String = (0..n).map(|i| keyframes(&format!("Go{i}"), single[i])).collect();
        let css = format!(
            "{all}div {{ animation-name: {}; animation-duration: {}; animation-delay: {}; animation-iteration-count: {}; }}",
            list(&|i| format!("Go{i}")),
            list(&|i| format!("{}s", timing(i).duration)),
            list(&|i| format!("{}s", timing(i).delay)),
            list(&|i| timing(i).count.map_or("infinite".to_string(), |c| format!("{c}"))),
        );
        cases.push((css, (0..n).map(|i| (single[i], timing(i))).collect()));
    }
    for n in [2usize, 3, 4, 5, 7, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 200] {
        for used in [0, 1, n / 2, n - 1] {
            let all: String = (0..n).map(|i| keyframes(&format!("Go{i}"), single[i % 14])).collect();
            cases.push((format!("{all}div {{ {} }}", declaration(&format!("Go{used}"), &timing(0), 0)), vec![(single[used % 14], timing(0))]));
        }
    }
    let order = super::long::tour(TIMES.len(), 2);
    Family::new("many", cases.len() as u64, move |index, ctx| {
        let (css, moves) = &cases[index as usize];
        through(&format!("div {{ font-weight: 400; }} {css}"), &order, moves, &[("font-weight", N(400.0))], ctx)
    })
}

pub fn plan(thorough: bool) -> Plan {
    (
        vec![timelines(thorough), pauses(thorough), declared("declared", [A, B], if thorough { 5 } else { 4 }), declared("overlapping", [C, D], if thorough { 5 } else { 3 }), elements(thorough), long(thorough), many(), everything(thorough), extremes(thorough)],
        assumed(&["times and durations are exact binary fractions, so whole percents are exact; other times only for hangs and values"]),
    )
}
