//! Long histories and large documents: one view goes through every pair (or triple) of changes.
use super::ui::{run, Act, Sim};
use super::*;
use bumaga::View;

/// A sequence over 0..n in which every word of length k occurs (de Bruijn, not closed).
pub fn tour(n: usize, k: usize) -> Vec<usize> {
    fn extend(t: usize, p: usize, n: usize, k: usize, a: &mut [usize], out: &mut Vec<usize>) {
        if t > k {
            if k % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
            return;
        }
        a[t] = a[t - p];
        extend(t + 1, p, n, k, a, out);
        for j in a[t - p] + 1..n {
            a[t] = j;
            extend(t + 1, t, n, k, a, out);
        }
    }
    let mut out = vec![];
    extend(1, 1, n, k, &mut vec![0; k + 1], &mut out);
    out.extend_from_within(..(k - 1).min(out.len()));
    out
}

/// Each document is given every word of `k` values, all to one view.
pub fn marathon(
    name: &str,
    docs: Vec<Doc>,
    css: &'static str,
    values: Vec<Value>,
    k: usize,
    check: impl Fn(&View, &Node, &mut String) -> Result<(), String> + Send + Sync + 'static,
) -> Family {
    let order = tour(values.len(), k);
    let htmls: Vec<String> = docs.iter().map(|d| d.html()).collect();
    Family::new(name, docs.len() as u64, move |index, ctx| {
        let d = index as usize;
        ctx.begin(&htmls[d]);
        let mut view = view(&htmls[d], css)?;
        for (n, i) in order.iter().enumerate() {
            let step = Step::new(values[*i].clone());
            step.run(&mut view)?;
            let expected = Reference { root: &values[*i], translate: &|s| s.to_string() }.body(&docs[d]);
            let mut seen = String::new();
            let result = compare_tree(&view.body(), &expected, &mut seen).and_then(|_| check(&view, &expected, &mut seen));
            ctx.step(&step.label(), &seen);
            result.map_err(|e| format!("update {n}: {e}"))?;
        }
        Ok(())
    })
}

/// Every word of `k` acts in one view, each act in an update of its own or many events at once.
pub fn marathon_of_acts(
    name: &str,
    doc: Doc,
    css: &str,
    first: Value,
    acts: Vec<Act>,
    k: usize,
    kinds: &'static [&'static str],
    capture: bool,
) -> Family {
    const AT_ONCE: [usize; 4] = [1, 2, 9, 40];
    let order = tour(acts.len(), k);
    let html = doc.html();
    let css = format!("{}{css}", super::ui::CSS);
    Family::new(name, AT_ONCE.len() as u64, move |index, ctx| {
        ctx.begin(&format!("{html}\n{css}"));
        let mut view = view(&html, &css)?;
        let mut sim = Sim::default();
        let mut value = first.clone();
        run(&mut view, &mut sim, &Step::new(value.clone()), kinds, capture, ctx)?;
        let mut events = vec![];
        for (n, i) in order.iter().enumerate() {
            let act = &acts[*i];
            if let Some(v) = &act.value {
                if !events.is_empty() {
                    let step = Step::new(value.clone()).events(std::mem::take(&mut events));
                    run(&mut view, &mut sim, &step, kinds, capture, ctx).map_err(|e| format!("act {n}: {e}"))?;
                }
                super::ui::merge(&mut value, v);
            }
            events.extend(act.events.iter().copied());
            if events.len() >= AT_ONCE[index as usize] || act.events.is_empty() {
                let step = Step::new(value.clone()).events(std::mem::take(&mut events));
                run(&mut view, &mut sim, &step, kinds, capture, ctx).map_err(|e| format!("act {n}: {e}"))?;
            }
        }
        Ok(())
    })
}

/// A value, and all which differ from it in one or all fields.
pub fn one_changed(base: Value, other: impl Fn(&str, &Value) -> Vec<Value>) -> Vec<Value> {
    let mut out = vec![base.clone(), json!({})];
    let fields = base.as_object().unwrap().clone();
    let mut all = base.clone();
    for (k, v) in &fields {
        for o in other(k, v) {
            let mut next = base.clone();
            next[k] = o.clone();
            out.push(next);
            all[k] = o;
        }
    }
    out.push(all);
    out
}

/// Many parts in a text, attributes on an element, pipes, names in a path.
pub fn texts() -> (Vec<Doc>, Vec<Value>) {
    let spans = |n: usize| -> String { (0..n).map(|i| format!("{}{{f{}}}", ["", "-", " & "][i % 3], i % 24)).collect() };
    let mut attrs: Vec<A> = (0..14).map(|i| bind(&format!("t{i}"), &format!("{{f{i}}}{}{{f{}}}", i, i + 7))).collect();
    attrs.extend((0..12).map(|i| flag(&format!("g{i}"), &format!("f{}", i + 12))));
    let docs = vec![Doc::new(vec![
        el("p", attrs, vec![text(&spans(40))]),
        el("q", vec![bind("t", &spans(30))], vec![text("{d.a.b.c.d.e.f.g.h}{f0 | inc | dbl | inc | dbl | inc | dbl | inc | dbl | wrap}")]),
        el("r", vec![bind("t", "{d.a.b.c.d.e.f.g}"), flag("f", "d.a.b.c.d.e.f.g.h")], (0..24).map(|i| el("i", vec![], vec![text(&format!("{{f{i}}}"))])).collect()),
    ])];
    let mut base = json!({"d": {"a": {"b": {"c": {"d": {"e": {"f": {"g": {"h": "deep"}}}}}}}}});
    for i in 0..24 {
        base[format!("f{i}")] = json!(i);
    }
    let values = one_changed(base, |k, _| match k {
        "d" => vec![json!({"a": {"b": {"c": {"d": {"e": {"f": {"g": {"h": 0}}}}}}}}), json!({"a": {"b": {"c": {"d": {"e": {"f": {"g": 5}}}}}}})],
        _ => vec![json!("x"), json!(null)],
    });
    (docs, values)
}

/// Conditions inside of conditions.
pub fn conditions() -> (Vec<Doc>, Vec<Value>) {
    let mut inner = vec![text("in")];
    for i in (0..14).rev() {
        let c = if i % 3 == 2 { unless(&format!("f{i}")) } else { when(&format!("f{i}")) };
        inner = vec![el("p", vec![c], inner), text(&format!("{i}")), el("q", vec![when(&format!("f{}", (i + 5) % 14))], vec![])];
    }
    let mut base = json!({});
    for i in 0..14 {
        base[format!("f{i}")] = json!(i % 3 != 2);
    }
    (vec![Doc::new(inner)], one_changed(base, |_, v| vec![json!(v != &json!(true))]))
}

/// Lists in lists in lists, and many lists beside each other.
pub fn lists() -> (Vec<Doc>, Vec<Value>) {
    let deep = el("a", vec![repeat("a", 3, "l")], vec![
        text("{a.n}"),
        el("b", vec![repeat("b", 2, "a.l"), bind("t", "{a.n}")], vec![
            text("{b.n}"),
            el("c", vec![repeat("c", 3, "b.l")], vec![
                text("{a.n}{b.n}{c.n}"),
                el("d", vec![repeat("d", 2, "c.l"), flag("f", "c.n")], vec![text("{a.n}{c.n}{d}")]),
                el("e", vec![unless("c.l")], vec![]),
            ]),
        ]),
        el("z", vec![], vec![]),
    ]);
    let beside: Vec<T> = (0..8)
        .flat_map(|i| vec![el("i", vec![repeat("x", 2, &format!("l{i}"))], vec![text(&format!("{i}{{x}}"))]), el("s", vec![when(&format!("l{i}"))], vec![])])
        .collect();
    let item = |n: Value, l: Value| json!({"n": n, "l": l});
    let d = json!(["p", "q"]);
    let c = json!([item(json!(1), d.clone()), item(json!(2), json!([])), item(json!(0), json!(["r"]))]);
    let b = json!([item(json!("b0"), c.clone()), item(json!("b1"), json!([item(json!(7), json!([null, 1, 2]))]))]);
    let a = json!([item(json!("a0"), b.clone()), item(json!("a1"), json!([])), item(json!("a2"), json!([item(json!(null), c.clone())]))]);
    let mut base = json!({"l": a});
    for i in 0..8 {
        base[format!("l{i}")] = json!([i]);
    }
    let mut values = one_changed(base.clone(), |k, v| match k {
        "l" => vec![json!([]), json!([v[2], v[0]]), json!([v[0]]), json!([v[1], v[1], v[0], v[2]])],
        _ => vec![json!([]), json!([1, "y"]), json!(["x", 2, 3])],
    });
    // a change far inside
    for path in ["/l/0/l/0/l/0/l", "/l/0/l/1/l/0/l/1", "/l/2/l/0/l/2/n", "/l/0/n", "/l/2/l/0/l"] {
        for new in [json!([]), json!(["s"]), json!("t")] {
            let mut v = base.clone();
            *v.pointer_mut(path).unwrap() = new;
            values.push(v);
        }
    }
    (vec![Doc::new(vec![deep]), Doc::new(beside)], values)
}

/// Names defined in many levels, many names on one element, templates which use templates.
pub fn names() -> (Vec<Doc>, Vec<Value>) {
    let mut nested = vec![text("{x.n}{y.n}{z.n}")];
    for i in (0..12).rev() {
        let [a, b] = [["x", "y.k"], ["y", "x.k"], ["z", "x"], ["x", "z.k"], ["y", "y.k"], ["z", "o.k"]][i % 6];
        nested = vec![text("{x.n}{y.n}{z.n}"), el("p", vec![alias(a, b), bind("t", "{x.n}{y.n}{z.n}"), on("onclick", "{x.n} {y.n} {z.n}")], nested), text("{x.n}{y.n}{z.n}")];
    }
    let names = ["x", "y", "z", "a", "b", "c", "d"];
    let many = el(
        "p",
        names.iter().enumerate().map(|(i, n)| alias(n, ["o", "o.k", "o.k.k", "l.0", "l.1.k", "o.k.k.k", "l.2"][i])).chain([bind("t", "{a.n}{b.n}{g.n}")]).collect(),
        vec![text("{x.n}{y.n}{z.n}{a.n}{b.n}{c.n}{d.n}")],
    );
    let mut templates = vec![("t0".to_string(), el("i", vec![bind("t", "{x.n}")], vec![text("{x.n}{y.n}{z.n}")]))];
    for i in 1..10 {
        let inner = link(&format!("t{}", i - 1), vec![alias(["x", "y", "z"][i % 3], ["y.k", "o", "x"][i % 3]), at(&format!("a{i}"), "1")]);
        templates.push((format!("t{i}"), el("u", vec![], vec![inner, text("{x.n}{y.n}{z.n}")])));
    }
    let docs = vec![
        Doc::new(nested),
        Doc::new(vec![many, text("{x.n}{y.n}{z.n}{a.n}{b.n}{c.n}{d.n}")]),
        Doc { templates, body: vec![link("t9", vec![]), text("{x.n}{y.n}{z.n}"), link("t4", vec![repeat("x", 3, "l")]), text("{x.n}{y.n}{z.n}")] },
    ];
    let chain = |name: &str| {
        let mut v = json!({"n": format!("{name}14")});
        for i in (0..14).rev() {
            v = json!({"n": format!("{name}{i}"), "k": v});
        }
        v
    };
    let base = json!({"x": chain("x"), "y": chain("y"), "z": chain("z"), "o": chain("o"), "a": chain("a"), "d": 5, "l": [chain("p"), chain("q"), chain("r")]});
    let values = one_changed(base, |k, v| match k {
        "l" => vec![json!([]), json!([v[2], v[0], 7])],
        "d" => vec![json!({"n": 9})],
        _ => vec![chain("other"), json!(null), v["k"].clone()],
    });
    (docs, values)
}

/// Many ids.
pub fn ids() -> (Vec<Doc>, Vec<Value>) {
    let docs = vec![Doc::new(vec![
        el("p", vec![repeat("i", 16, "l"), bind("id", "{i}")], vec![]),
        el("q", vec![], (0..20).map(|i| el("i", vec![at("id", &format!("s{i}")), when(&format!("f{}", i % 3))], vec![])).collect()),
    ])];
    let mut values = vec![];
    for n in [0usize, 1, 3, 4, 5, 7, 8, 9, 15, 16] {
        for first in [0usize, 1, 8] {
            let l: Vec<String> = (0..n).map(|i| format!("n{}", i + first)).collect();
            values.push(json!({"l": l, "f0": n % 2 == 0, "f1": first > 0, "f2": true}));
        }
    }
    (docs, values)
}

/// Many pictures.
pub fn pictures() -> (Vec<Doc>, Vec<Value>) {
    let docs = vec![Doc::new(vec![
        el("img", vec![repeat("i", 12, "l"), bind("src", "{i}.png")], vec![]),
        el("p", vec![repeat("i", 12, "l")], vec![el("img", vec![bind("src", "{i}")], vec![]), el("img", vec![at("src", "fixed"), when("i")], vec![])]),
    ])];
    let mut values = vec![];
    for n in [0usize, 1, 2, 4, 5, 8, 11, 12] {
        for first in [0usize, 3] {
            values.push(json!({"l": (0..n).map(|i| format!("n{}", (i + first) % 9)).collect::<Vec<_>>()}));
        }
    }
    (docs, values)
}

