use super::*;

/// Fixed parts of texts with the number of copies the template holds of each.
fn fixed(t: &T, copies: usize, out: &mut Vec<String>) {
    match t {
        T::Text(s) => {
            for s in s {
                if let Span::S(s) = s {
                    for _ in 0..copies {
                        out.push(s.clone());
                    }
                }
            }
        }
        T::El(tag, attrs, kids) => {
            let mut copies = copies;
            for a in attrs {
                if let A::Repeat(_, n, _) = a {
                    copies *= n;
                }
            }
            if !VOID.contains(&tag.as_str()) {
                for k in kids {
                    fixed(k, copies, out);
                }
            }
        }
        T::Link(..) => unreachable!("expanded"),
    }
}

fn translated() -> Vec<String> {
    let mut list = TRANSLATED.with(|t| t.borrow().clone());
    list.sort();
    list
}

fn histories(name: &str, docs: Vec<Doc>, values: Vec<Value>, depth: usize) -> Family {
    let n = values.len() as u64;
    let per = n.pow(depth as u32);
    let htmls: Vec<String> = docs.iter().map(|d| d.html()).collect();
    Family::new(name, per * docs.len() as u64, move |index, ctx| {
        let d = (index / per) as usize;
        ctx.begin(&htmls[d]);
        TRANSLATED.with(|t| t.borrow_mut().clear());
        let mut view = view_with(&htmls[d], "", Box::new(Recorder))?;
        let mut expected = vec![];
        for t in docs[d].expanded() {
            fixed(&t, 1, &mut expected);
        }
        expected.sort();
        let seen = translated();
        ctx.step("create", &seen.join("|"));
        if seen != expected {
            return Err(format!("creating translates {seen:?}, expected {expected:?}"));
        }
        for i in digits(index % per, n, depth) {
            let step = Step::new(values[i].clone()).time(0.1);
            step.run(&mut view)?;
            let expected = Reference { root: &values[i], translate: &|s| format!("T({s})") }.body(&docs[d]);
            let mut shown = String::new();
            let result = compare_tree(&view.body(), &expected, &mut shown);
            ctx.step(&step.label(), &shown);
            result?;
            let again = translated();
            if again != seen {
                return Err(format!("the update translated again: {again:?} after {seen:?}"));
            }
        }
        Ok(())
    })
}

fn texts() -> Vec<&'static str> {
    vec!["a", "a b", "{x}", "a{x}", "{x}a", "a {x} b", "{x}{y}", "a{x}b{y}c", "{x} {y}"]
}

fn attributes() -> Vec<Vec<A>> {
    vec![
        vec![],
        vec![at("id", "a"), at("class", "a b"), at("title", "a")],
        vec![bind("id", "{x}"), bind("title", "a {x} b")],
        vec![at("style", "width: 3px;"), bind("a", "a")],
        vec![bind("style", "width: {w}px;"), flag("hidden", "x")],
        vec![on("onclick", "a $event {x}"), at("T", "a")],
    ]
}

/// The content inside up to `depth` containers of each kind.
fn nest(content: Vec<(Vec<(String, T)>, T)>, round: usize) -> Vec<(Vec<(String, T)>, T)> {
    let mut out = vec![];
    for (templates, t) in content {
        let it = || t.clone();
        out.push((templates.clone(), div(vec![], vec![text("d"), it()])));
        out.push((templates.clone(), div(vec![when("x")], vec![it()])));
        out.push((templates.clone(), div(vec![unless("x")], vec![it(), text("d{y}")])));
        out.push((templates.clone(), div(vec![repeat("x", 2, "l")], vec![it()])));
        out.push((templates.clone(), div(vec![repeat("y", 3, "l"), at("k", "d")], vec![text("{y} e"), it()])));
        out.push((templates.clone(), div(vec![alias("x", "y")], vec![it()])));
        let name = format!("t{round}");
        let mut with = templates.clone();
        with.push((name.clone(), div(vec![], vec![it(), text("w")])));
        out.push((with.clone(), link(&name, vec![])));
        out.push((with.clone(), link(&name, vec![repeat("x", 2, "l")])));
        out.push((with.clone(), div(vec![], vec![link(&name, vec![]), link(&name, vec![when("y"), at("a", "b")])])));
        let mut never = templates.clone();
        never.push(("never".to_string(), div(vec![], vec![text("never")])));
        out.push((never, it()));
    }
    out
}

fn doc((templates, t): (Vec<(String, T)>, T)) -> Doc {
    Doc { templates, body: vec![t] }
}

pub fn plan(thorough: bool) -> Plan {
    let mut flat = vec![];
    for t in texts() {
        for a in attributes() {
            flat.push((vec![], el("p", a.clone(), vec![text(t)])));
            flat.push((vec![], el("p", a.clone(), vec![text(t), el("br", vec![], vec![]), text("a")])));
        }
    }
    let few: Vec<(Vec<(String, T)>, T)> = vec![
        (vec![], el("p", vec![at("title", "z")], vec![text("a {x} b")])),
        (vec![], el("p", vec![bind("title", "z{x}")], vec![text("{x}"), el("i", vec![], vec![text("c")]), text("a")])),
    ];
    let once = nest(flat.clone(), 0);
    let twice = nest(nest(few.clone(), 0), 1);
    let mut values = objects(&[
        ("x", some(&[json!("a"), json!(null)])),
        ("y", some(&[json!("b"), json!([])])),
        ("w", some(&[json!(3)])),
        ("l", some(&[json!([]), json!(["a", "c"]), json!([1, null, "a b"])])),
    ]);
    values.push(json!(null));
    let small = vec![values[0].clone(), values[11].clone(), values[6].clone(), json!(null)];
    let docs = |list: Vec<(Vec<(String, T)>, T)>| list.into_iter().map(doc).collect::<Vec<_>>();
    let mut families = vec![
        histories("flat", docs(flat.clone()), values.clone(), if thorough { 3 } else { 2 }),
        histories("nested once", docs(once), if thorough { values.clone() } else { small.clone() }, 2),
        histories("nested twice", docs(twice.clone()), if thorough { values.clone() } else { small.clone() }, 2),
    ];
    // many texts, deep nesting
    for (name, (docs, mut values)) in [("many", super::long::texts()), ("deep", super::long::conditions()), ("names", super::long::names()), ("lists", super::long::lists())] {
        values.truncate(8);
        families.push(histories(name, docs, values, 1));
    }
    if thorough {
        families.push(histories("nested three times", docs(nest(twice, 2)), small, 2));
    }
    (
        families,
        assumed(&["a repeat of capacity N holds N copies of its element from the start, each of its texts is translated once"]),
    )
}
