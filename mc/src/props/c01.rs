use super::*;

fn anything() -> Vec<Value> {
    vec![
        Value::Null,
        json!(true),
        json!(false),
        json!(0),
        json!(7),
        json!(-1.5),
        json!(u64::MAX),
        json!(""),
        json!("s"),
        json!(" {b} ä<i>\"\n&amp;'| "),
        json!(2.0),
        json!(1e30),
        json!([]),
        json!([1]),
        json!([1, "x"]),
        json!([2, "x"]),
        json!({}),
        json!({"k": 1}),
        json!({"k": "v", "z": {"y": 5}}),
        json!({"k": null, "z": {"y": 6}}),
    ]
}

fn docs() -> Vec<Doc> {
    let mut docs = vec![
        Doc::new(vec![
            text("{a}"),
            div(vec![], vec![text("x{a}y")]),
            div(vec![bind("t", "{a}"), bind("u", "p{a}q"), flag("f", "a")], vec![]),
        ]),
        Doc::new(vec![
            div(vec![flag("f", "a.k"), bind("t", "{a.k}")], vec![text("{a.k}{a.z.y}")]),
            div(vec![bind("t", "{a.z}")], vec![text("-{a.z.y}")]),
        ]),
        Doc::new(vec![
            div(
                vec![flag("f", "a | neg"), bind("t", "{a | kind}")],
                vec![text("{a | wrap}{a | kind}{a | len}{a | kind | wrap}{a | wrap | len}")],
            ),
        ]),
        Doc::new(vec![
            div(vec![flag("f", "a"), bind("t", "{a}")], vec![text("{a.k}")]),
            div(vec![bind("t", "{a.z | kind}{a.k | wrap}")], vec![text("{a.z.y | inc | dbl}")]),
            div(vec![], vec![text("{a.z.y | dbl | inc}!{a | kind}")]),
        ]),
        Doc::new(vec![
            div(vec![flag("f", "a | neg | neg"), bind("t", "{a | wrap | wrap}")], vec![text("{a | wrap | kind | wrap}")]),
            div(vec![], vec![text("{a.z.y | dbl | dbl}{a.z.y | inc | inc | dbl | inc}{a | tail | tail | len}")]),
        ]),
        Doc::new(vec![
            div(vec![bind("t", "{a.0}"), flag("f", "a.1")], vec![text("{a.0} {a.1}")]),
            div(vec![], vec![text("{a | kind}{a | tail | len}")]),
        ]),
    ];
    // inside a repeated element and a template
    docs.push(Doc {
        templates: vec![(
            "t".to_string(),
            div(vec![bind("n", "{x}")], vec![text("<{x}>".replace(['<', '>'], "~").as_str())]),
        )],
        body: vec![
            link("t", vec![alias("x", "a")]),
            el("p", vec![repeat("i", 2, "a"), bind("v", "{i}{a | kind}")], vec![text("{i | wrap}")]),
        ],
    });
    docs
}

/// Every span pattern up to a length, in a text and in an attribute.
fn patterns(max: usize) -> Vec<Doc> {
    let parts = ["S", "{a}", "{b}", "{a | wrap}", "{a.k}"];
    let mut out = vec![];
    for len in 1..=max {
        for i in 0..(parts.len() as u64).pow(len as u32) {
            let d = digits(i, parts.len() as u64, len);
            if d.windows(2).any(|w| w == [0, 0]) {
                continue;
            }
            let s: String = d.iter().map(|i| parts[*i]).collect();
            if !s.contains('{') {
                continue;
            }
            out.push(Doc::new(vec![div(vec![bind("t", &s)], vec![text(&s)])]));
        }
    }
    out
}

/// Names which begin like others, and items beyond the tenth.
fn names() -> (Vec<Doc>, Vec<Value>) {
    let doc = Doc::new(vec![
        text("{a}|{ab}|{a.b}|{b.a}|{b}|{abc}"),
        el("p", vec![bind("t", "{a.b.c}{ab}"), bind("u", "{a.b}-{abc}"), flag("a", "a.b"), flag("ab", "ab")], vec![text("{a-b}{a_b}{a.bc}")]),
        el("q", vec![when("ab")], vec![text("{a.1}{a.10}{a.11}{a.100}")]),
        el("r", vec![unless("a")], vec![text("{a1}{a10}")]),
    ]);
    let twelve: Vec<Value> = (0..12).map(|i| json!(format!("n{i}"))).collect();
    let mut other = twelve.clone();
    other.swap(1, 10);
    let values = objects(&[
        ("a", some(&[json!(null), json!({"b": 1, "bc": 2}), json!({"b": {"c": 3}}), json!({"bc": 4, "10": "x"}), json!(twelve), json!(other)])),
        ("ab", vec![None, Some(json!(5)), Some(json!(false))]),
        ("abc", vec![None, Some(json!("z"))]),
        ("b", some(&[json!({"a": 6}), json!(7)])),
        ("a-b", some(&[json!("d")])),
        ("a_b", some(&[json!("u")])),
        ("a1", some(&[json!(8)])),
        ("a10", some(&[json!(9)])),
    ]);
    (vec![doc], values)
}

/// Seconds and their texts.
fn durations(depth: usize) -> Family {
    let list = [
        (json!(0), "0ns"),
        (json!(1), "1s"),
        (json!(1.5), "1.5s"),
        (json!(61), "61s"),
        (json!(0.25), "250ms"),
        (json!(0.0015), "1.5ms"),
        (json!(0.000002), "2µs"),
        (json!(86400), "86400s"),
        (json!(null), ""),
        (json!("x"), "x"),
        (json!(true), "true"),
        (json!([1]), "[array]"),
    ];
    let doc = Doc::new(vec![
        el("p", vec![bind("t", "{a | duration}"), bind("u", "in {a | duration | wrap}")], vec![text("{a | duration}.")]),
        el("q", vec![repeat("i", 1, "l")], vec![text("{i | duration}{i | inc | duration}")]),
    ]);
    let html = doc.html();
    let n = list.len() as u64;
    Family::new("durations", n.pow(depth as u32), move |index, ctx| {
        ctx.begin(&html);
        let mut view = view(&html, "")?;
        for i in digits(index, n, depth) {
            let (value, expected) = &list[i];
            let step = Step::new(json!({"a": value, "l": [value]}));
            step.run(&mut view)?;
            let body = view.body();
            let p = &body.children()[0];
            let shown = [
                p.attrs.get("t").cloned().unwrap_or_default(),
                p.attrs.get("u").cloned().unwrap_or_default(),
                p.children()[0].text.as_ref().map(|t| t.to_string()).unwrap_or_default(),
            ];
            ctx.step(&step.label(), &format!("{shown:?}"));
            let after = if value.is_number() { json!(expected) } else { value.clone() };
            let wrapped = crate::template::pipe("wrap", after);
            let wrapped = wrapped.as_str().unwrap();
            let expected = [expected.to_string(), format!("in {wrapped}"), format!("{expected}.")];
            if shown != expected {
                return Err(format!("{value} is shown as {shown:?}, expected {expected:?}"));
            }
        }
        Ok(())
    })
}

pub fn plan(thorough: bool) -> Plan {
    let whole: Vec<Value> = std::iter::once(json!({}))
        .chain(anything().into_iter().map(|v| json!({ "a": v })))
        .collect();
    let ab = objects(&[
        ("a", vec![None, Some(json!(1)), Some(json!("s")), Some(json!({"k": 2}))]),
        ("b", vec![None, Some(json!(true)), Some(json!("t"))]),
    ]);
    let (name_docs, name_values) = names();
    let (large, large_values) = long::texts();
    let mut families = vec![
        value_histories("large", large, large_values, 2),
        long::marathon("marathon", docs(), "", whole.clone(), if thorough { 3 } else { 2 }, |_, _, _| Ok(())),
        value_histories("names", name_docs, name_values, if thorough { 3 } else { 2 }),
        alike(thorough),
        durations(if thorough { 4 } else { 2 }),
        value_histories("one-path", docs(), whole.clone(), 3),
        value_histories(
            "span-patterns",
            patterns(if thorough { 4 } else { 3 }),
            ab.clone(),
            2,
        ),
        // values repeated, left and taken up again
        value_histories(
            "long",
            docs().into_iter().take(5).collect(),
            [0usize, 1, 5, 13, 15, 16].iter().map(|i| whole[*i].clone()).collect(),
            if thorough { 6 } else { 4 },
        ),
    ];
    if thorough {
        families.push(value_histories("one-path-deeper", docs(), whole, 4));
        families.push(value_histories("span-patterns-deeper", patterns(3), ab, 3));
    }
    (
        families,
        assumed(&[
            "templates and values outside the listed families are not explored",
        ]),
    )
}
