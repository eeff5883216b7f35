use super::decls::*;
use super::*;
use bumaga::{Fragment, InputEvent, Length};

fn seen(f: &Fragment) -> Aspects {
    let mut a = vec![];
    style_aspects(f, &mut a);
    a
}

/// What the public accessors of borders and lengths say about the values they are made of.
fn accessors(f: &Fragment) -> Result<(), String> {
    let b = &f.borders;
    for (name, side, shown) in [
        ("top", &b.top, b.top()),
        ("right", &b.right, b.right()),
        ("bottom", &b.bottom, b.bottom()),
        ("left", &b.left, b.left()),
    ] {
        let expected = (side.width > 0.0).then_some((side.width, side.color));
        let shown = shown.map(|s| (s.width, s.color));
        if shown != expected {
            return Err(format!("{name} border is {shown:?}, expected {expected:?}"));
        }
    }
    for (i, radius) in b.radius.iter().enumerate() {
        let expected = match *radius {
            Length::Number(v) => v,
            Length::Percent(v) => v * 80.0,
        };
        if radius.resolve(80.0) != expected {
            return Err(format!("radius {i} of {radius:?} resolves to {}, expected {expected}", radius.resolve(80.0)));
        }
    }
    Ok(())
}

/// Where two declarations stand; the second one always has to win.
const PLACES: [&str; 10] = [
    "one block",
    "two rules",
    "specific rule first",
    "rule then inline",
    "inline written before",
    "one inline style",
    "bound inline style",
    "bound class then rule",
    "state then rule",
    "rule then bound flag",
];

/// Html and css of a place, for declarations `a` and then `b`.
fn place(i: usize, a: &str, b: &str) -> (String, String, Value) {
    let page = |attrs: &str| format!("<html><body><div {attrs}></div></body></html>");
    let (attrs, css, value) = match i {
        0 => (String::new(), format!("div {{ {a} {b} }}"), json!({})),
        1 => (String::new(), format!("div {{ {a} }} div {{ {b} }}"), json!({})),
        2 => (
            "id=\"i\" class=\"c\"".to_string(),
            format!("div.c#i {{ {a} }} .c {{ }} body > * {{ {b} }}"),
            json!({}),
        ),
        3 => (format!("style=\"{}\"", quoted(b)), format!("div {{ {a} }}"), json!({})),
        4 => (
            format!("@style=\"{{s}}\" id=\"i\""),
            format!("#i {{ {a} }} body > div {{ {a} }}"),
            json!({"s": b}),
        ),
        5 => (format!("style=\"{} {}\"", quoted(a), quoted(b)), "div { }".to_string(), json!({})),
        6 => ("@style=\"{a} {b}\"".to_string(), String::new(), json!({"a": a, "b": b})),
        7 => ("@class=\"{c}\"".to_string(), format!(".x {{ {a} }} div {{ {b} }}"), json!({"c": "x"})),
        8 => (String::new(), format!("body {{ width: 90px; height: 90px; }} body:hover > div {{ {a} }} div {{ {b} }}"), json!({})),
        _ => ("#f=\"{f}\"".to_string(), format!("body > div {{ {a} }} [f] {{ {b} }}"), json!({"f": true})),
    };
    (page(&attrs), css, value)
}

/// Inline styles cannot contain double quotes.
fn quoted(s: &str) -> String {
    s.replace('"', "\\\"")
}

fn quotable(place: usize, a: &str, b: &str) -> bool {
    match place {
        3 => !b.contains('"'),
        5 => !a.contains('"') && !b.contains('"'),
        _ => true,
    }
}

fn singles() -> Family {
    let all = all();
    Family::new("singles", all.len() as u64, move |index, ctx| {
        let d = &all[index as usize];
        let css = format!("div {{ {} }}", d.css);
        ctx.begin(&css);
        let mut view = view("<html><body><p></p><div><p></p></div><p></p></body></html>", &css)?;
        let step = Step::new(json!({}));
        step.run(&mut view)?;
        let mut expected = initial()?;
        set(&mut expected, d);
        let is = seen(&view.body().children()[1]);
        ctx.step(&step.label(), &format!("{is:?}"));
        compare(&is, &expected)?;
        accessors(&view.body().children()[1])?;
        // and nothing on its siblings
        for i in [0, 2] {
            compare(&seen(&view.body().children()[i]), &initial()?).map_err(|e| format!("sibling: {e}"))?;
        }
        Ok(())
    })
}

/// Every value of a property after every other value of it.
fn values(name: &str) -> Family {
    let all = all();
    let mut list = vec![];
    for a in &all {
        for b in &all {
            if a.property == b.property {
                list.push((a.clone(), b.clone()));
            }
        }
    }
    ordered(name, list)
}

fn pairs(name: &str, list: Vec<Decl>) -> Family {
    let both = list.iter().flat_map(|a| list.iter().map(|b| (a.clone(), b.clone()))).collect();
    ordered(name, both)
}

fn ordered(name: &str, list: Vec<(Decl, Decl)>) -> Family {
    let n = list.len() as u64;
    let places = PLACES.len() as u64;
    let start = std::sync::OnceLock::new();
    Family::new(name, n * places, move |index, ctx| {
        let [p, pair] = mixed(index, &[places, n])[..] else { unreachable!() };
        let (a, b) = &list[pair];
        if !quotable(p, &a.css, &b.css) {
            return Ok(());
        }
        let (html, css, value) = place(p, &a.css, &b.css);
        ctx.begin(&format!("{}\n{html}\n{css}", PLACES[p]));
        let mut view = view(&html, &css)?;
        let mut step = Step::new(value);
        if p == 8 {
            // hovered in the next update
            step = step.event(InputEvent::MouseMove([1.0, 1.0]));
            step.run(&mut view)?;
            step.events.clear();
        }
        step.run(&mut view)?;
        let initial = start.get_or_init(initial).clone()?;
        let mut expected = initial;
        set(&mut expected, a);
        set(&mut expected, b);
        let is = seen(&view.body().children()[0]);
        ctx.step(&step.label(), &format!("{is:?}"));
        compare(&is, &expected).map_err(|e| format!("{}: {} then {}: {e}", PLACES[p], a.css, b.css))
    })
}

/// Three or four declarations in rules whose order is not that of their specificity.
fn orders(thorough: bool) -> Family {
    let pick = |css: &str| all().into_iter().find(|d| d.css == css).expect(css);
    let list: Vec<Decl> = ORDERED.iter().map(|c| pick(c)).collect();
    let n = list.len() as u64;
    let k = if thorough { 4 } else { 3 };
    let selectors = ["#i", "div", ".c", "*"];
    Family::new("orders", n.pow(k as u32) * 2, move |index, ctx| {
        let order = digits(index / 2, n, k);
        let mut css = String::new();
        let mut expected = initial()?;
        for (j, i) in order.iter().enumerate() {
            set(&mut expected, &list[*i]);
            if index % 2 == 0 {
                css.push_str(&format!("{} {{ {} }}\n", selectors[j], list[*i].css));
            } else {
                css.push_str(&list[*i].css);
            }
        }
        if index % 2 == 1 {
            css = format!("div {{ {css} }}");
        }
        ctx.begin(&css);
        let mut view = view("<html><body><div id=\"i\" class=\"c\"></div></body></html>", &css)?;
        let step = Step::new(json!({}));
        step.run(&mut view)?;
        let is = seen(&view.body().children()[0]);
        ctx.step(&step.label(), &format!("{is:?}"));
        compare(&is, &expected)
    })
}

/// The declarations of `orders`.
const ORDERED: [&str; 19] = [
    "margin: 4px 0;",
    "margin-left: auto;",
    "border: 3px solid #010203;",
    "border-width: 4px 0 1em;",
    "border-top-width: 1.5px;",
    "border-left: 1em solid rgba(1, 2, 3, 0.5);",
    "border-color: red rgb(3, 4, 5);",
    "background: red;",
    "background-image: url(\"a.png\");",
    "background-color: #010203;",
    "background-color: red, #010203;",
    "padding: 25%;",
    "padding-top: 3px;",
    "inset: 25% 1em 4px;",
    "left: 3px;",
    "gap: 25% 1em;",
    "row-gap: 3px;",
    "overflow: clip;",
    "overflow-x: hidden;",
];

/// Many declarations of the same properties, as rules and in one block.
fn crowds() -> Family {
    const LENGTHS: [usize; 14] = [5, 6, 8, 10, 12, 16, 17, 20, 24, 32, 33, 40, 65, 100];
    let pick = |css: &str| all().into_iter().find(|d| d.css == css).expect(css);
    let list: Vec<Decl> = ORDERED.iter().map(|c| pick(c)).collect();
    let bases = [LENGTHS.len() as u64, list.len() as u64, 6, 3];
    Family::new("crowds", bases.iter().product(), move |index, ctx| {
        let m = mixed(index, &bases);
        let chosen: Vec<&Decl> = (0..LENGTHS[m[0]]).map(|i| &list[(m[1] + i * (m[2] + 1)) % list.len()]).collect();
        let selectors = ["#i", "div", ".c", "*", "div.c", "body > div", "[id=\"i\"]"];
        let mut expected = initial()?;
        let mut css = String::new();
        for (i, d) in chosen.iter().enumerate() {
            set(&mut expected, d);
            css.push_str(&if m[3] == 0 { format!("{} {{ {} }}\n", selectors[i % selectors.len()], d.css) } else { d.css.clone() });
        }
        let (html, css) = match m[3] {
            0 => ("<html><body><div id=\"i\" class=\"c\"></div></body></html>", css),
            1 => ("<html><body><div id=\"i\" class=\"c\"></div></body></html>", format!("div {{ {css} }}")),
            _ => ("<html><body><div @style=\"{s}\"></div></body></html>", css),
        };
        let (sheet, value) = if m[3] == 2 { (String::new(), json!({"s": css})) } else { (css, json!({})) };
        ctx.begin(&sheet);
        let mut view = view(html, &sheet)?;
        let step = Step::new(value);
        step.run(&mut view)?;
        let is = seen(&view.body().children()[0]);
        ctx.step(&step.label(), &format!("{is:?}"));
        compare(&is, &expected)
    })
}

pub fn plan(thorough: bool) -> Plan {
    let list = if thorough { spread(10) } else { spread(1) };
    (
        vec![singles(), values("values of a property"), pairs("pairs", list), orders(thorough), crowds()],
        assumed(&["the table of declarations lists what each property sets", "transitions and animations are judged elsewhere"]),
    )
}
