use super::*;
use bumaga::{InputEvent, MouseButtons};

fn around(n: usize, attrs: Vec<A>, kids: Vec<T>) -> Doc {
    let mut all = vec![repeat("i", n, "l")];
    all.extend(attrs);
    Doc::new(vec![
        el("before", vec![], vec![]),
        el("c", all, kids),
        el("after", vec![], vec![]),
    ])
}

fn scalar_docs() -> Vec<Doc> {
    let mut out = vec![];
    for n in [0usize, 1, 2, 3] {
        out.push(around(n, vec![bind("v", "{i}")], vec![text("{i}")]));
    }
    // two repeats of the same array and conditions between
    out.push(Doc::new(vec![
        el("c", vec![repeat("i", 2, "l"), flag("f", "i")], vec![text("{i | wrap}")]),
        el("m", vec![when("l")], vec![]),
        el("d", vec![repeat("i", 3, "l")], vec![text("{i}{l | kind}")]),
    ]));
    out.push(Doc::new(vec![
        text("s"),
        el("c", vec![repeat("i", 2, "l | tail")], vec![text("{l | len}")]),
        text("e"),
    ]));
    out
}

fn object_docs() -> Vec<Doc> {
    vec![
        around(
            3,
            vec![bind("id", "x{i.a}"), flag("on", "i.b")],
            vec![
                el("p", vec![when("i.b")], vec![text("{i.a}")]),
                el("q", vec![unless("i.b")], vec![]),
                text("{i.a}{i | kind}"),
            ],
        ),
        around(2, vec![alias("z", "i")], vec![text("{i.a}{i.b}")]),
    ]
}

fn nested_docs() -> Vec<Doc> {
    vec![
        around(
            2,
            vec![],
            vec![
                el("k", vec![repeat("j", 2, "i.m")], vec![text("{j}{i.n}")]),
                text("."),
            ],
        ),
        Doc::new(vec![el(
            "c",
            vec![repeat("i", 2, "l")],
            vec![
                el("k", vec![repeat("j", 3, "i")], vec![text("{j}")]),
                el("e", vec![], vec![]),
            ],
        )]),
    ]
}

/// Every shown copy, in every place, tells the item it belongs to when it is pressed.
fn handlers(name: &str, cap: usize, arrays: Vec<Value>, depth: usize) -> Family {
    let html = Doc::new(vec![el(
        "c",
        vec![
            repeat("i", cap, "l"),
            on("onmousedown", "down {i}"),
            on("onclick", "click {i} {i | wrap} {i.k} {l}"),
        ],
        vec![],
    )])
    .html();
    let n = arrays.len() as u64;
    Family::new(name, n.pow(depth as u32), move |index, ctx| {
        ctx.begin(&html);
        let mut view = view(&html, "c { width: 10px; height: 10px; }")?;
        for i in digits(index, n, depth) {
            let value = json!({ "l": arrays[i] });
            let step = Step::new(value.clone());
            step.run(&mut view)?;
            let items = value["l"].as_array().cloned().unwrap_or_default();
            let count = items.len().min(cap);
            for k in 0..cap {
                let here = [5.0, 10.0 * k as f32 + 5.0];
                let step = Step::new(value.clone())
                    .event(InputEvent::MouseMove(here))
                    .event(InputEvent::MouseButtonDown(MouseButtons::Left))
                    .event(InputEvent::MouseButtonUp(MouseButtons::Left));
                let output = step.run(&mut view)?;
                let mut expected = vec![];
                if k < count {
                    let item = items[k].clone();
                    expected.push(json!({ "down": item }));
                    expected.push(json!({ "click": [
                        item,
                        pipe("wrap", items[k].clone()),
                        items[k].get("k").cloned().unwrap_or(Value::Null),
                        value["l"],
                    ]}));
                }
                ctx.step(&step.label(), &output_text(&output));
                if output.messages != expected {
                    return Err(format!(
                        "pressing place {k} with {value}: messages {:?}, expected {expected:?}",
                        output.messages
                    ));
                }
            }
        }
        Ok(())
    })
}

/// One item of a repeated array is shown outside of the repeat too.
fn picked() -> Family {
    let doc = Doc::new(vec![el("p", vec![repeat("i", 3, "l")], vec![text("{i}")]), el("q", vec![], vec![text("{l.1}")])]);
    let histories: Vec<Vec<Value>> = vec![
        vec![json!([])],
        vec![json!([1])],
        vec![json!([1, 2])],
        vec![json!([1, 2]), json!([])],
        vec![json!([1, 2]), json!([1])],
        vec![json!([1, 2]), json!([1, 3])],
        vec![json!([1, 2]), json!([3, 2, 1])],
        vec![json!([1, 2, 3]), json!([1, 3])],
    ];
    let html = doc.html();
    Family::new("items picked from repeated arrays", histories.len() as u64, move |index, ctx| {
        ctx.begin(&html);
        let mut view = view(&html, "")?;
        let history = &histories[index as usize];
        for value in history {
            let step = Step::new(json!({ "l": value }));
            step.run(&mut view)?;
            check_rendering(&view, &doc, &json!({ "l": value }), ctx, &step).map_err(|e| format!("second item picked from {}: {e}", json!(history)))?;
        }
        Ok(())
    })
}

pub fn plan(thorough: bool) -> Plan {
    let odd = [json!(null), json!(5), json!("s"), json!({}), json!({"0": 1})];
    let l = |v: Vec<Value>| -> Vec<Value> {
        std::iter::once(json!({}))
            .chain(v.into_iter().map(|v| json!({ "l": v })))
            .collect()
    };
    let mut scalars = arrays(&[json!(1), json!(null)], 4);
    scalars.extend(odd.clone());
    let scalars = l(scalars);
    let rich = l(arrays(&[json!(1), json!("x"), json!(null), json!({"k": 1})], 3));
    let mut items = arrays(
        &[json!({"a": 1, "b": true}), json!({"a": 2}), json!(null), json!(3)],
        2,
    );
    items.push(json!([{"a": 1}, {"a": 2}, {"a": 3, "b": 1}, {"a": 4}]));
    items.push(json!("s"));
    let items = l(items);
    let mut inner = vec![];
    for x in [json!([]), json!([1]), json!([1, 2]), json!([null, 2]), json!(null)] {
        inner.push(json!({"n": 1, "m": x}));
    }
    let nested: Vec<Value> = l(arrays(&inner, 2));
    let lists = l(arrays(&[json!([]), json!([1]), json!([2, 3]), json!(4)], 2));
    // more items than digits or bytes count
    let long = |n: usize, from: usize| -> Value { (from..from + n).map(|i| json!({"n": i, "m": [i, i + 1], "b": i % 3 == 0})).collect() };
    let wide_docs = vec![
        around(
            12,
            vec![bind("v", "{i.n}")],
            vec![text("{i.n}"), el("k", vec![repeat("j", 2, "i.m"), flag("f", "i.b")], vec![text("{j}{i.n}")]), el("e", vec![when("i.b")], vec![])],
        ),
        Doc::new(vec![
            el("c", vec![repeat("i", 11, "l")], vec![text("{i.n}")]),
            el("d", vec![repeat("i", 12, "l"), bind("w", "{i.m.1}")], vec![]),
        ]),
        Doc::new(vec![el("x", vec![], vec![text("{l.1.n}{l.10.n}{l.11.n}")])]),
    ];
    let mut wide: Vec<Value> = vec![json!([]), json!(null)];
    for n in [1usize, 2, 9, 10, 11, 12, 13] {
        wide.push(long(n, 0));
        wide.push(long(n, 7));
    }
    let wide = l(wide);
    let large_docs = vec![around(300, vec![bind("v", "{i.n}")], vec![text("{i.n}")])];
    let large: Vec<Value> = l([0usize, 1, 255, 256, 257, 300, 301].iter().map(|n| long(*n, *n)).collect());
    let (deep, deep_values) = long::lists();
    let mut families = vec![
        value_histories("large", deep, deep_values, if thorough { 3 } else { 2 }),
        long::marathon("marathon", scalar_docs(), "", scalars.clone(), 2, |_, _, _| Ok(())),
        long::marathon("marathon of objects", object_docs(), "", items.clone(), if thorough { 3 } else { 2 }, |_, _, _| Ok(())),
        long::marathon("marathon of lists", nested_docs()[..1].to_vec(), "", nested.clone(), 2, |_, _, _| Ok(())),
        value_histories("more than ten", wide_docs, wide, if thorough { 3 } else { 2 }),
        alike(thorough),
        picked(),
        value_histories("more than a byte", large_docs, large, 2),
        value_histories("scalars", scalar_docs(), scalars.clone(), 2),
        value_histories("any-items", scalar_docs()[2..4].to_vec(), rich, 2),
        value_histories("objects", object_docs(), items.clone(), 3),
        value_histories("nested", nested_docs()[..1].to_vec(), nested.clone(), 2),
        value_histories("lists-of-lists", nested_docs()[1..].to_vec(), lists.clone(), 3),
        value_histories(
            "lengths",
            scalar_docs(),
            l(vec![json!([]), json!([1]), json!([1, 2]), json!([3, 2, 1]), json!([1, 2, 3, 4]), json!(7)]),
            if thorough { 5 } else { 4 },
        ),
        handlers("handlers", 2, arrays(&[json!(1), json!({"k": 2}), json!(null)], 3), 2),
    ];
    if thorough {
        families.push(value_histories("scalars-deeper", scalar_docs(), scalars, 3));
        families.push(value_histories("objects-deeper", object_docs(), items, 4));
        families.push(value_histories("nested-deeper", nested_docs()[..1].to_vec(), nested, 3));
        families.push(value_histories("lists-of-lists-deeper", nested_docs()[1..].to_vec(), lists, 4));
        families.push(handlers(
            "handlers-deeper",
            3,
            arrays(&[json!(1), json!({"k": 2}), json!(null)], 3),
            3,
        ));
    }
    (families, assumed(&["capacities up to 3, arrays up to length 4"]))
}
