use super::*;

fn docs() -> Vec<Doc> {
    vec![
        Doc::new(vec![
            div(vec![when("a"), bind("t", "{a.k}")], vec![text("{a.k.z}{a}")]),
            div(vec![unless("a.k"), flag("f", "a.k.z")], vec![text("{b}")]),
        ]),
        Doc::new(vec![
            el("p", vec![repeat("i", 2, "a"), bind("t", "{i.k}")], vec![
                text("{i}"),
                el("q", vec![repeat("j", 2, "i.m")], vec![text("{j}{j.k}")]),
            ]),
            el("e", vec![when("a")], vec![text("{a | kind}{a | len}")]),
        ]),
        Doc::new(vec![
            el("p", vec![repeat("i", 2, "a.k")], vec![text("{i}{i.m}")]),
            el("q", vec![when("a.k")], vec![]),
            text("{a.b.c}{b.k}{b.0}"),
        ]),
    ]
}

fn wild() -> Vec<Value> {
    vec![
        json!(null),
        json!(false),
        json!(3),
        json!("s"),
        json!([]),
        json!([1]),
        json!([[1], {"k": 2}]),
        json!([{"k": 1, "m": [1]}, null, 3]),
        json!({}),
        json!({"k": 1}),
        json!({"k": [1, {"m": 2}], "b": {"c": 1}}),
        json!({"k": {"z": 1}, "b": 4}),
        json!({"k": {"z": [1]}, "extra": {"deep": [1, 2]}}),
    ]
}

fn numbers() -> Vec<Value> {
    vec![
        json!(null),
        json!(0),
        json!(-0.0),
        json!(1),
        json!(-1),
        json!(-0.5),
        json!(1e-320),
        json!(1.5),
        json!(1e19),
        json!(1e20),
        json!(1.8446744073709552e19),
        json!(1e300),
        json!(-1e300),
        json!(f64::MAX),
        json!(u64::MAX),
        json!(i64::MIN),
        json!("1"),
        json!(true),
        json!([]),
        json!({}),
    ]
}

/// Like the histories of C01, against a view that only ever saw the latest value.
fn against_fresh(name: &str, docs: Vec<(String, String)>, values: Vec<Value>, depth: usize) -> Family {
    let n = values.len() as u64;
    let per_doc = n.pow(depth as u32);
    Family::new(name, per_doc * docs.len() as u64, move |index, ctx| {
        let (html, css) = &docs[(index / per_doc) as usize];
        ctx.begin(html);
        let mut used = view(html, css)?;
        let order = digits(index % per_doc, n, depth);
        for (k, i) in order.iter().enumerate() {
            let step = Step::new(values[*i].clone());
            step.run(&mut used)?;
            let seen = seen_tree(&used.body());
            ctx.step(&step.label(), &seen);
            if k + 1 < depth {
                continue; // the shorter histories are other cases
            }
            let mut fresh = view(html, css)?;
            step.run(&mut fresh)?;
            let expected = seen_tree(&fresh.body());
            if seen != expected {
                return Err(format!(
                    "after {:?}: {seen}, a new view shows {expected}",
                    order.iter().map(|i| values[*i].to_string()).collect::<Vec<_>>()
                ));
            }
        }
        Ok(())
    })
}

pub fn plan(thorough: bool) -> Plan {
    let whole: Vec<Value> = std::iter::once(json!(null))
        .chain([json!([]), json!(5), json!("s"), json!({})])
        .chain(wild().into_iter().map(|v| json!({ "a": v })))
        .collect();
    let both: Vec<Value> = objects(&[
        ("a", some(&[json!(1), json!({"k": {"z": 1}}), json!([1, [2]]), json!({"k": [3]})])),
        ("b", some(&[json!(null), json!([7]), json!({"k": 1})])),
    ]);
    let styled: Vec<(String, String)> = docs()
        .iter()
        .map(|d| (d.html(), String::new()))
        .chain([(
            // templates outside the reference: conflicting uses of a path, styles, images, ids
            r#"<html><body><img @src="{a}" @id="{b}"/><p @style="width: {a}px; color: {b};" @class="{a}">{a.k}{a}</p><q *i="2 {a}" @style="{i}">{a.k}</q></body></html>"#
                .to_string(),
            ".s { width: 4px; } #s { height: 3px; }".to_string(),
        )])
        .collect();
    let durations = vec![(
        r#"<html><body><p @t="{a | duration}">{a | duration}</p><q>{a | duration | wrap}{a | inc | duration}</q></body></html>"#
            .to_string(),
        String::new(),
    )];
    let numbers: Vec<Value> = numbers().into_iter().map(|v| json!({ "a": v })).collect();
    let mut families = vec![
        long::marathon("marathon", docs(), "", whole.clone(), if thorough { 3 } else { 2 }, |_, _, _| Ok(())),
        value_histories("any-types", docs(), whole.clone(), if thorough { 4 } else { 3 }),
        value_histories("two-fields", docs(), both.clone(), 3),
        against_fresh("fresh-view", styled.clone(), whole.clone(), 3),
        against_fresh("durations", durations, numbers, 2),
    ];
    if thorough {
        families.push(value_histories("two-fields-deeper", docs(), both.clone(), 4));
        families.push(against_fresh("fresh-view-two-fields", styled, both, 4));
    }
    (
        families,
        assumed(&["histories up to depth 4 over 18 values of all JSON types at the bound paths"]),
    )
}
