use super::ui::with;
use super::*;

/// What a level of nesting may define under the name `x`.
#[derive(Clone, Copy, PartialEq)]
enum Def {
    Nothing,
    AliasField,
    AliasInner,
    AliasOther,
    RepeatField,
    RepeatInner,
    RepeatOther,
    LinkAlias,
    LinkRepeat,
    /// with a condition over the name
    AliasWhen,
    AliasUnless,
    LinkAliasWhen,
}

const DEFS: [Def; 12] = [
    Def::Nothing,
    Def::AliasField,
    Def::AliasInner,
    Def::AliasOther,
    Def::RepeatField,
    Def::RepeatInner,
    Def::RepeatOther,
    Def::LinkAlias,
    Def::LinkRepeat,
    Def::AliasWhen,
    Def::AliasUnless,
    Def::LinkAliasWhen,
];

fn shows() -> T {
    text("{x} {x.k} {y}|")
}

fn levels(defs: &[Def], templates: &mut Vec<(String, T)>) -> Vec<T> {
    let Some((def, rest)) = defs.split_first() else {
        return vec![el("s", vec![bind("v", "{x.k}")], vec![shows()])];
    };
    let mut kids = vec![shows()];
    kids.extend(levels(rest, templates));
    kids.push(shows());
    let attrs = |a: Option<A>| -> Vec<A> {
        a.into_iter().chain([bind("v", "{y}"), on("onclick", "Go {x} {y}")]).collect()
    };
    let element = match def {
        Def::Nothing => div(attrs(None), kids),
        Def::AliasField => div(attrs(Some(alias("x", "o"))), kids),
        Def::AliasInner => div(attrs(Some(alias("x", "x.k"))), kids),
        Def::AliasOther => div(attrs(Some(alias("y", "x"))), kids),
        Def::RepeatField => div(attrs(Some(repeat("x", 2, "l"))), kids),
        Def::RepeatInner => div(attrs(Some(repeat("x", 2, "x.m"))), kids),
        Def::RepeatOther => div(attrs(Some(repeat("y", 2, "l"))), kids),
        Def::AliasWhen => div(with(attrs(Some(alias("x", "o"))), vec![when("x.k.k")]), kids),
        Def::AliasUnless => div(with(attrs(Some(alias("x", "x.k"))), vec![unless("x.m")]), kids),
        Def::LinkAlias | Def::LinkRepeat | Def::LinkAliasWhen => {
            let name = format!("t{}", templates.len());
            templates.push((name.clone(), div(attrs(None), kids)));
            let a = match def {
                Def::LinkAlias => vec![alias("x", "o"), alias("y", "x.k")],
                Def::LinkRepeat => vec![repeat("x", 2, "l"), at("w", "1")],
                _ => vec![alias("y", "x.k"), when("y.k")],
            };
            // (the attributes of the link come with those of the template)
            link(&name, a)
        }
    };
    vec![el("b", vec![], vec![shows()]), element, el("a", vec![bind("v", "{y}")], vec![shows()])]
}

fn doc(defs: &[Def]) -> Doc {
    let mut templates = vec![];
    let body = levels(defs, &mut templates);
    Doc { templates, body }
}

fn all(depth: usize) -> Vec<Doc> {
    let mut out = vec![];
    for d in 1..=depth {
        for i in 0..(DEFS.len() as u64).pow(d as u32) {
            let defs: Vec<Def> = digits(i, DEFS.len() as u64, d).iter().map(|i| DEFS[*i]).collect();
            out.push(doc(&defs));
        }
    }
    out
}

fn values() -> Vec<Value> {
    let deep = json!({"k": {"k": 3, "m": [4]}, "m": [5, {"k": 6}]});
    vec![
        json!({
            "x": {"k": {"k": "xkk", "m": ["xkm"]}, "m": [{"k": "xm0"}, {"k": "xm1"}]},
            "y": "why", "o": deep, "l": [{"k": 1, "m": [11, 12]}, {"k": 2}],
        }),
        json!({"x": {"k": 9, "m": [1]}, "y": null, "o": {"k": "ok"}, "l": [{"m": [{"k": 1}]}]}),
        json!({"y": 1, "l": []}),
    ]
}

/// Several templates, several uses, nested uses, attributes of the use.
fn template_docs() -> Vec<Doc> {
    let t1 = el(
        "card",
        vec![at("class", "c"), bind("v", "{item.n}")],
        vec![text("{title}: {item.n}"), el("b", vec![when("item.on")], vec![text("on")])],
    );
    let t2 = el(
        "list",
        vec![],
        vec![
            link("card", vec![repeat("item", 2, "items"), flag("sel", "item.on")]),
            link("card", vec![alias("item", "first"), when("first")]),
            text("{item.n}"),
        ],
    );
    let t3 = el("row", vec![repeat("item", 2, "items")], vec![text("{item.n}{title}")]);
    let t = || {
        vec![
            ("card".to_string(), t1.clone()),
            ("list".to_string(), t2.clone()),
            ("row".to_string(), t3.clone()),
        ]
    };
    vec![
        Doc { templates: t(), body: vec![link("list", vec![])] },
        Doc {
            templates: t(),
            body: vec![
                link("card", vec![alias("item", "first"), at("id", "one")]),
                link("list", vec![alias("items", "o.items"), alias("first", "o.first")]),
                link("list", vec![alias("title", "o.title")]),
                link("card", vec![alias("item", "o.first"), unless("first")]),
                text("{item.n}{title}"),
            ],
        },
        Doc {
            templates: t(),
            body: vec![
                el("m", vec![repeat("title", 2, "names")], vec![
                    link("row", vec![alias("items", "o.items")]),
                    link("card", vec![alias("item", "first")]),
                    link("row", vec![]),
                ]),
                link("row", vec![alias("title", "o.title"), bind("z", "{title}")]),
                el("n", vec![alias("items", "o.items"), alias("title", "o.title")], vec![
                    link("list", vec![when("first.on")]),
                    link("row", vec![]),
                ]),
                text("{title}"),
            ],
        },
        // templates which are only the use of another one
        Doc {
            templates: {
                let mut t = t();
                t.push(("one".to_string(), link("card", vec![alias("item", "first"), at("id", "one")])));
                t.push(("two".to_string(), link("one", vec![alias("first", "o.first"), flag("sel", "first.on")])));
                t.push(("all".to_string(), link("card", vec![repeat("item", 2, "items")])));
                t.push(("few".to_string(), link("row", vec![bind("z", "{title}")])));
                t
            },
            body: vec![
                link("one", vec![when("first")]),
                link("two", vec![unless("first")]),
                el("n", vec![alias("items", "o.items"), alias("title", "o.title")], vec![
                    link("all", vec![]),
                    link("few", vec![at("y", "few")]),
                    link("two", vec![]),
                ]),
                link("all", vec![alias("items", "o.items")]),
                text("{item.n}{title}"),
            ],
        },
        // a list under a name which its items take, and which counts again after them
        Doc {
            templates: vec![
                ("own".to_string(), el("own", vec![], vec![
                    el("p", vec![repeat("x", 2, "x")], vec![text("{x.n}"), el("b", vec![when("x.on")], vec![])]),
                    el("b", vec![when("x")], vec![]),
                    el("u", vec![repeat("y", 2, "x")], vec![text("{y.n}")]),
                ])),
            ],
            body: vec![
                link("own", vec![alias("x", "items")]),
                el("m", vec![alias("items", "o.items"), alias("x", "items")], vec![
                    el("p", vec![repeat("x", 2, "x")], vec![text("{x.n}")]),
                    el("b", vec![unless("x")], vec![]),
                    link("own", vec![]),
                    el("u", vec![repeat("y", 2, "x")], vec![text("{y.n}")]),
                ]),
                el("b", vec![when("items")], vec![]),
                el("b", vec![when("x")], vec![]),
            ],
        },
        // the use and the content define the same name
        Doc {
            templates: vec![
                ("in".to_string(), el("in", vec![alias("first", "first.n"), bind("v", "{first}")], vec![text("{first}")])),
                ("on".to_string(), el("on", vec![alias("o", "o.first"), alias("title", "o.n")], vec![text("{title}{o.on}")])),
            ],
            body: vec![
                link("in", vec![alias("first", "o.first")]),
                text("{first.n}"),
                el("n", vec![alias("first", "item"), alias("title", "o.title")], vec![
                    link("in", vec![when("o.first"), alias("first", "o.first")]),
                    text("{first.n}"),
                    link("on", vec![alias("title", "names"), alias("o", "o")]),
                    text("{first.n}{title}{o.title}"),
                ]),
                link("in", vec![]),
                text("{first.n}{title}{o.title}"),
            ],
        },
    ]
}

fn template_values() -> Vec<Value> {
    let i = |n: i32, on: bool| json!({"n": n, "on": on});
    vec![
        json!({}),
        json!({"title": "T", "item": i(100, true), "first": i(1, true), "items": [i(2, false), i(3, true)],
            "names": ["A", "B"], "o": {"title": "OT", "items": [i(4, true)], "first": i(5, false)}}),
        json!({"title": "U", "item": i(100, true), "items": [i(2, true)],
            "names": ["A"], "o": {"title": "OU", "items": [i(4, true), i(6, false)]}}),
        json!({"title": 0, "first": i(0, false), "items": [],
            "names": [null, "Z"], "o": {"first": i(7, true)}}),
    ]
}

pub fn plan(thorough: bool) -> Plan {
    let (large, large_values) = long::names();
    let families = vec![
        value_histories("large", large, large_values, if thorough { 4 } else { 3 }),
        long::marathon("marathon", template_docs(), "", template_values(), if thorough { 6 } else { 4 }, |_, _, _| Ok(())),
        value_histories("scopes", all(if thorough { 4 } else { 3 }), values(), if thorough { 2 } else { 1 }),
        value_histories("scopes-changing", all(2), values(), 3),
        value_histories("templates", template_docs(), template_values(), if thorough { 5 } else { 3 }),
    ];
    (
        families,
        assumed(&[
            "definitions nested up to four deep, over two names",
            "an alias is not written on the element that repeats under the same name",
        ]),
    )
}
