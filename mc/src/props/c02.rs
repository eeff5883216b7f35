use super::*;

fn kinds() -> Vec<Option<A>> {
    vec![
        None,
        Some(when("a")),
        Some(unless("a")),
        Some(when("b")),
        Some(unless("b")),
        Some(when("o")),
        Some(unless("o.k")),
        Some(when("l")),
        Some(when("a | neg")),
    ]
}

/// Siblings e0.. with one condition kind each.
fn siblings(n: usize, kinds: &[Option<A>]) -> Vec<Doc> {
    let mut out = vec![];
    for i in 0..(kinds.len() as u64).pow(n as u32) {
        let d = digits(i, kinds.len() as u64, n);
        if d.iter().all(|k| kinds[*k].is_none()) {
            continue;
        }
        let body = d
            .iter()
            .enumerate()
            .map(|(i, k)| {
                let attrs = kinds[*k].iter().cloned().collect();
                el(&format!("e{i}"), attrs, vec![])
            })
            .collect();
        out.push(Doc::new(body));
    }
    out
}

pub fn plan(thorough: bool) -> Plan {
    let values = objects(&[
        ("a", vec![None, Some(json!(1))]),
        ("b", vec![Some(json!("")), Some(json!("x"))]),
        ("o", vec![None, Some(json!({"k": null})), Some(json!({"k": 0})), Some(json!({"k": 1}))]),
        ("l", vec![Some(json!([])), Some(json!([0]))]),
    ]);
    let truth: Vec<Value> = std::iter::once(json!({}))
        .chain(
            [
                json!(null), json!(false), json!(0), json!(0.0), json!(-0.0), json!(""), json!([]),
                json!(true), json!(1), json!(-1), json!(0.001), json!("0"), json!("false"), json!(" "),
                json!([null]), json!({}), json!({"k": null}), json!({"k": 1}),
            ]
            .into_iter()
            .map(|v| json!({ "a": v })),
        )
        .collect();
    let switch = Doc::new(vec![
        el("i", vec![], vec![]),
        el("p", vec![when("a")], vec![text("{a}")]),
        el("q", vec![unless("a")], vec![]),
        el("b", vec![when("a.k")], vec![text("k{a.k}")]),
        el("u", vec![unless("a | neg")], vec![]),
        text("end"),
    ]);
    let whole_only = Doc::new(vec![
        el("p", vec![when("a")], vec![]),
        el("q", vec![unless("a")], vec![text("none")]),
    ]);
    let nested = Doc::new(vec![
        el(
            "p",
            vec![when("a")],
            vec![
                el("x", vec![when("b")], vec![text("{a}")]),
                el("y", vec![unless("b")], vec![el("z", vec![when("c")], vec![])]),
            ],
        ),
        el("q", vec![unless("c")], vec![el("w", vec![when("a")], vec![])]),
        text("."),
        el("r", vec![when("c")], vec![]),
    ]);
    let row = Doc::new(
        ["a", "b", "c", "d"]
            .iter()
            .map(|n| el(&format!("e-{n}"), vec![when(n)], vec![]))
            .collect(),
    );
    let bools = |names: &[&str]| -> Vec<Value> {
        objects(
            &names
                .iter()
                .map(|n| (*n, vec![Some(json!(false)), Some(json!(true))]))
                .collect::<Vec<_>>(),
        )
    };
    let mixed_row = Doc {
        templates: vec![("t".to_string(), el("tt", vec![], vec![text("{v}")]))],
        body: vec![
            el("x", vec![when("a")], vec![]),
            el("r", vec![repeat("i", 2, "l")], vec![
                el("y", vec![when("i.on")], vec![text("{i.n}")]),
                el("z", vec![unless("i.on")], vec![]),
                el("s", vec![when("a")], vec![]),
            ]),
            link("t", vec![when("b"), alias("v", "n")]),
            el("e", vec![unless("a")], vec![]),
        ],
    };
    let item = |on: Value, n: i32| json!({"on": on, "n": n});
    let mixed_values = objects(&[
        ("a", some(&[json!(false), json!(true)])),
        ("b", some(&[json!(false), json!(true)])),
        ("n", some(&[json!(5)])),
        (
            "l",
            some(&[
                json!([]),
                json!([item(json!(true), 1)]),
                json!([item(json!(false), 1)]),
                json!([item(json!(false), 2), item(json!(true), 3)]),
                json!([item(json!(true), 1), item(json!(null), 3)]),
                json!([{}, item(json!(true), 3)]),
            ]),
        ),
    ]);
    let long_row = Doc::new(
        ["a", "b", "c", "d", "e", "f", "g"]
            .iter()
            .enumerate()
            .map(|(i, n)| el(&format!("e-{n}"), vec![if i % 3 == 1 { unless(n) } else { when(n) }], vec![]))
            .collect(),
    );
    let many: Vec<T> = (0..70).map(|i| el(&format!("e{i}"), vec![when(&format!("f{i}"))], vec![])).collect();
    // every value of two changes among many siblings
    let ends = [0usize, 1, 9, 10, 31, 32, 63, 64, 69];
    let mut many_values = vec![json!({})];
    for a in ends {
        for b in ends {
            let mut m = serde_json::Map::new();
            for i in a..=b {
                m.insert(format!("f{i}"), json!(true));
            }
            if a > b {
                for i in (0..=b).chain(a..70) {
                    m.insert(format!("f{i}"), json!(true));
                }
            }
            many_values.push(Value::Object(m));
        }
    }
    let (large, large_values) = long::conditions();
    let mut families = vec![
        value_histories("large", large, large_values, if thorough { 4 } else { 3 }),
        long::marathon("marathon", vec![nested.clone()], "", bools(&["a", "b", "c"]), if thorough { 5 } else { 4 }, |_, _, _| Ok(())),
        long::marathon("marathon of items", vec![mixed_row.clone()], "", mixed_values.clone(), 2, |_, _, _| Ok(())),
        alike(thorough),
        value_histories("seven siblings", vec![long_row], bools(&["a", "b", "c", "d", "e", "f", "g"]), 2),
        value_histories("many siblings", vec![Doc::new(many)], many_values, 2),
        value_histories("truth", vec![switch.clone(), whole_only.clone()], truth.clone(), 3),
        value_histories("siblings", siblings(2, &kinds()), values.clone(), 2),
        value_histories("row", vec![row], bools(&["a", "b", "c", "d"]), if thorough { 4 } else { 3 }),
        value_histories("nested", vec![nested], bools(&["a", "b", "c"]), if thorough { 6 } else { 4 }),
        value_histories("items", vec![mixed_row], mixed_values, if thorough { 3 } else { 2 }),
        value_histories(
            "three-siblings",
            siblings(3, &kinds()),
            if thorough { values.clone() } else { values.iter().step_by(5).cloned().collect() },
            if thorough { 2 } else { 2 },
        ),
    ];
    if thorough {
        families.push(value_histories("truth-deeper", vec![switch, whole_only], truth, 4));
        families.push(value_histories("siblings-deeper", siblings(2, &kinds()), values, 3));
    }
    (
        families,
        assumed(&["an element has one condition, and not a repeat of its own at the same time"]),
    )
}
