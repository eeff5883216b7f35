use super::*;
use bumaga::{Fragment, View};

/// The shown elements with an id, found along the reference tree.
fn carriers<'a>(f: &Fragment<'a>, n: &Node, id: &str, out: &mut Vec<(taffy::NodeId, String)>) {
    if n.attrs.get("id").map(String::as_str) == Some(id) {
        out.push((f.node, n.tag.clone()));
    }
    let kids = f.tree.children(f.node).unwrap();
    for (node, n) in kids.iter().zip(&n.kids) {
        let c = Fragment { element: f.tree.get_node_context(*node).unwrap(), tree: f.tree };
        carriers(&c, n, id, out);
    }
}

const IDS: [&str; 16] = ["m", "k", "n", "s", "id", "", "t0", "t1", "tm", "tk", "t", "null", "never", "{x}", "i.id", "true"];

fn check(view: &View, expected: &Node, seen: &mut String) -> Result<(), String> {
    let body = view.body();
    let mut ids: Vec<String> = IDS.iter().map(|id| id.to_string()).collect();
    ids.extend((0..24).flat_map(|i| [format!("n{i}"), format!("s{i}")]));
    for id in ids.iter().map(String::as_str) {
        let mut list = vec![];
        carriers(&body, expected, id, &mut list);
        let found = view.get_element_by_id(id);
        seen.push_str(&format!("{id}={} ", found.map(|e| e.tag.as_str()).unwrap_or("-")));
        match (list.as_slice(), found) {
            ([], None) => {}
            ([], Some(e)) => return Err(format!("looking up {id:?} returns {:?} {:?}, no element has it", e.tag, e.attrs.get("id"))),
            ([(node, tag)], Some(e)) if e.node == *node && &e.tag == tag && e.attrs.get("id").map(String::as_str) == Some(id) => {}
            ([(_, tag)], e) => {
                return Err(format!(
                    "looking up {id:?} returns {:?}, expected the {tag:?} with it",
                    e.map(|e| (e.tag.clone(), e.attrs.get("id").cloned()))
                ))
            }
            // more than one element with an id
            _ => {}
        }
    }
    Ok(())
}

fn histories(name: &str, docs: Vec<Doc>, values: Vec<Value>, depth: usize) -> Family {
    let n = values.len() as u64;
    let per = n.pow(depth as u32);
    let htmls: Vec<String> = docs.iter().map(|d| d.html()).collect();
    Family::new(name, per * docs.len() as u64, move |index, ctx| {
        let d = (index / per) as usize;
        ctx.begin(&htmls[d]);
        let mut view = view(&htmls[d], "")?;
        for i in digits(index % per, n, depth) {
            let step = Step::new(values[i].clone());
            step.run(&mut view)?;
            let expected = Reference { root: &values[i], translate: &|s| s.to_string() }.body(&docs[d]);
            let mut seen = String::new();
            compare_tree(&view.body(), &expected, &mut seen)?;
            let result = check(&view, &expected, &mut seen);
            ctx.step(&step.label(), &seen);
            result?;
        }
        Ok(())
    })
}

pub fn plan(thorough: bool) -> Plan {
    let pairs = vec![
        // two ids which swap, with a fixed one
        Doc::new(vec![el("p", vec![bind("id", "{x}")], vec![]), el("q", vec![bind("id", "{y}")], vec![el("r", vec![at("id", "s")], vec![])])]),
        // shown one at a time
        Doc::new(vec![
            el("p", vec![at("id", "m"), when("x")], vec![el("i", vec![at("id", "k")], vec![text("1")])]),
            el("q", vec![at("id", "m"), unless("x")], vec![el("u", vec![bind("id", "{y}")], vec![])]),
        ]),
        // partly bound and flag
        Doc::new(vec![
            el("p", vec![bind("id", "t{x}"), when("y")], vec![]),
            el("q", vec![flag("id", "y")], vec![el("r", vec![bind("id", "{x}")], vec![])]),
        ]),
        // an ancestor goes
        Doc::new(vec![div(vec![when("x")], vec![div(vec![unless("y")], vec![el("p", vec![bind("id", "{y}"), at("a", "b")], vec![]), el("q", vec![bind("id", "{x}")], vec![])])])]),
        // the same template at two places
        Doc {
            templates: vec![("w".to_string(), el("p", vec![at("id", "k"), bind("v", "{x}")], vec![el("i", vec![bind("id", "{y}")], vec![])]))],
            body: vec![link("w", vec![when("x")]), div(vec![unless("x")], vec![link("w", vec![])])],
        },
        // an id from the link and from a template
        Doc {
            templates: vec![
                ("w".to_string(), el("p", vec![], vec![text("{x}")])),
                ("v".to_string(), el("q", vec![bind("id", "{z}")], vec![link("w", vec![at("id", "n"), alias("x", "z")])])),
            ],
            body: vec![link("w", vec![bind("id", "{x}")]), link("v", vec![alias("z", "y")])],
        },
    ];
    let lists = vec![
        Doc::new(vec![
            el("p", vec![repeat("i", 3, "l"), bind("id", "{i.id}")], vec![text("{i.id}")]),
            el("q", vec![bind("id", "{x}")], vec![]),
        ]),
        Doc::new(vec![
            el("p", vec![repeat("i", 2, "l")], vec![el("i", vec![bind("id", "{i.id}"), when("i.id")], vec![]), el("u", vec![bind("id", "t{i.id}")], vec![])]),
            el("q", vec![at("id", "s"), unless("l")], vec![]),
        ]),
        Doc {
            templates: vec![("w".to_string(), el("p", vec![bind("id", "{i.id}")], vec![el("e", vec![at("id", "n")], vec![])]))],
            body: vec![link("w", vec![repeat("i", 2, "l")]), link("w", vec![alias("i", "o"), when("x")])],
        },
    ];
    let ids = vec![json!("m"), json!("k"), json!(null), json!(""), json!("s"), json!(true)];
    let pair_values = objects(&[("x", some(&ids)), ("y", some(&ids))]);
    let items = [json!({"id": "m"}), json!({"id": "k"}), json!({"id": null})];
    let mut list_values = vec![];
    for l in arrays(&items, if thorough { 3 } else { 2 }) {
        list_values.push(json!({"l": l, "x": "m", "o": {"id": "k"}}));
        list_values.push(json!({"l": l, "x": null, "o": {"id": "m"}}));
    }
    list_values.push(json!({"x": "k"}));
    list_values.push(json!(null));
    let (many, many_values) = long::ids();
    // an id which goes from one to the other
    let turns = vec![Doc::new(vec![
        el("p", vec![repeat("i", 20, "l"), bind("id", "{i}")], vec![]),
        el("q", vec![], (0..20).map(|i| el("i", vec![bind("id", &format!("{{f{i}}}"))], vec![])).collect()),
        // and back to an element which carries it always, when shown
        el("u", vec![when("u")], vec![el("b", vec![at("id", "k")], vec![]), el("b", vec![at("id", "m")], vec![])]),
    ])];
    let turn_values: Vec<Value> = (0..21)
        .map(|at| {
            let name = |i: usize| if i == at { "m".to_string() } else { format!("n{i}") };
            let mut v = json!({"u": at == 20, "l": (0..20).map(name).collect::<Vec<_>>()});
            for i in 0..20 {
                v[format!("f{i}")] = json!(if i == at { "k".to_string() } else { format!("s{i}") });
            }
            v
        })
        .collect();
    (
        vec![
            long::marathon("in turn", turns, "", turn_values, 2, check),
            histories("pairs", pairs.clone(), pair_values.clone(), if thorough { 4 } else { 3 }),
            histories("many", many, many_values, if thorough { 3 } else { 2 }),
            long::marathon("marathon", pairs.clone(), "", pair_values.clone(), if thorough { 3 } else { 2 }, check),
            histories("lists", lists, list_values, 3),
        ],
        assumed(&["an id of several bindings or of several shown elements is not judged"]),
    )
}
