use super::decls::*;
use super::*;
use bumaga::Fragment;

fn seen(f: &Fragment) -> Aspects {
    let mut a = vec![];
    style_aspects(f, &mut a);
    a
}

fn aspect(f: &Fragment, name: &str) -> String {
    seen(f).into_iter().find(|a| a.0 == name).map(|a| a.1).unwrap_or("no such aspect".to_string())
}

/// Where `--x` can be set. Elements: 0 body, 1 section, 2 p, 3 t, 4 i (in t), 5 aside, 6 u (in aside).
/// Higher ranks win on the same element.
const SITES: [(usize, usize); 12] = [
    (0, 0), // body rule
    (1, 0), // section rule
    (1, 2), // section inline, bound
    (3, 0), // t rule before the use
    (3, 1), // t rule after the use
    (3, 9), // t inline, bound
    (2, 0), // sibling
    (5, 0), // aside
    (4, 0), // child
    (3, 3), // t by bound class
    (1, 1), // section by flag
    (3, 2), // t by sibling combinator
];

const PARENT: [usize; 7] = [0, 0, 1, 1, 3, 0, 5];
const USERS: [usize; 4] = [2, 3, 4, 6];

/// How the variable is used: declarations, the aspect to look at, which value type.
struct Use {
    name: &'static str,
    css: &'static str,
    inline: bool,
    keyframes: bool,
    aspect: &'static str,
    /// Value of the aspect without a defined variable (`?` any).
    unset: &'static str,
    kind: Kind,
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Length,
    Border,
    Number,
    Color,
    Channel,
    Second,
}

const USES: [Use; 17] = {
    const fn new(name: &'static str, css: &'static str, aspect: &'static str, unset: &'static str, kind: Kind) -> Use {
        Use { name, css, inline: false, keyframes: false, aspect, unset, kind }
    }
    [
        new("alone", "width: var(--x);", "layout.width", "Auto", Kind::Length),
        new("first of two", "margin: var(--x) 2px;", "layout.margin.top", ANY, Kind::Length),
        new("last of three", "padding: 1px 2px var(--x);", "layout.padding.bottom", ANY, Kind::Length),
        new("part of a border", "border-left: var(--x) solid red;", "border.left.width", ANY, Kind::Border),
        new("as channel", "color: rgb(1, var(--x), 3);", "color", "[0, 0, 0, 255]", Kind::Channel),
        new("in a list", "background-color: red, var(--x);", "bg1.color", "[0, 0, 0, 0]", Kind::Color),
        new("after itself", "--x: var(--x); height: 7px; ", "layout.height", "Length(7.0)", Kind::Length),
        new("through one", "--y: var(--x); width: var(--y);", "layout.width", "Auto", Kind::Length),
        new("through two, backwards", "width: var(--z); --z: var(--y); --y: var(--x);", "layout.width", "Auto", Kind::Length),
        new("through a function", "--c: rgb(1, var(--x), 3); color: var(--c);", "color", "[0, 0, 0, 255]", Kind::Channel),
        new("all values", "padding: var(--x);", "layout.padding.right", "Length(0.0)", Kind::Second),
        new("some values", "padding: 9px var(--x);", "layout.padding.bottom", ANY, Kind::Second),
        new("number", "flex-grow: var(--x);", "layout.flex_grow", "0.0", Kind::Number),
        Use { inline: true, ..new("inline", "width: var(--x);", "layout.width", "Auto", Kind::Length) },
        Use { inline: true, ..new("inline in a shorthand", "margin: 3px var(--x);", "layout.margin.left", ANY, Kind::Length) },
        Use { keyframes: true, ..new("keyframes", "min-width: var(--x);", "layout.min_width", "Auto", Kind::Length) },
        Use { keyframes: true, ..new("keyframes in a function", "background-color: rgb(1, var(--x), 3);", "bg0.color", "[0, 0, 0, 0]", Kind::Channel) },
    ]
};

impl Kind {
    /// Value number `i` as css and as aspect.
    fn value(self, i: usize) -> (String, String) {
        let n = i + 10;
        match self {
            Kind::Length => (format!("{n}px"), format!("Length({n}.0)")),
            Kind::Border => (format!("{n}px"), format!("{n}.0")),
            Kind::Number => (format!("{n}"), format!("{n}.0")),
            Kind::Color => (format!("rgb({n}, 0, 0)"), format!("[{n}, 0, 0, 255]")),
            Kind::Channel => (format!("{n}"), format!("[1, {n}, 3, 255]")),
            Kind::Second => (format!("1px {n}px"), format!("Length({n}.0)")),
        }
    }
}

/// All sets of definitions, each used in all ways on all elements, while dynamic ones come and go.
fn sites() -> Family {
    let count = 1u64 << SITES.len();
    let uses = USES.len() as u64;
    Family::new("sites", count * uses, move |index, ctx| {
        let set = index / uses;
        let u = &USES[(index % uses) as usize];
        let has = |s: usize| set >> s & 1 == 1;
        let def = |s: usize| {
            if has(s) { format!("--x: {};", u.kind.value(s).0) } else { String::new() }
        };
        let inline = if u.inline { u.css } else { "" };
        let html = format!(
            "<html><body><section @style=\"{{s}}\" #f=\"{{f}}\"><p style=\"{inline}\"></p>\
             <div class=\"t\" @class=\"t {{c}}\" @style=\"{inline} {{t}}\"><i style=\"{inline}\"></i></div></section>\
             <aside><u style=\"{inline}\"></u></aside></body></html>"
        )
        .replace("class=\"t\" @class", "@class");
        let (mut rule, mut frames) = (String::new(), String::new());
        if u.keyframes {
            rule = "p, .t, i, u { animation: 100s linear k; }".to_string();
            frames = format!("@keyframes k {{ from {{ {0} }} to {{ {0} }} }}", u.css);
        } else if !u.inline {
            rule = format!("p, .t, i, u {{ {} }}", u.css);
        }
        let css = format!(
            "body {{ {} }} section {{ {} }} aside {{ {} }} .t {{ {} }}\n{rule}\n{frames}\n.t {{ {} }} p {{ {} }} i {{ {} }} p + .t {{ {} }} [f] {{ {} }} .on {{ {} }}",
            def(0), def(1), def(7), def(3), def(4), def(6), def(8), def(11), def(10), def(9)
        );
        ctx.begin(&format!("{}\n{html}\n{css}", u.name));
        let mut view = view(&html, &css)?;
        for dynamic in [true, false, true] {
            let value = if dynamic {
                json!({"s": def(2), "t": def(5), "c": if has(9) { "on" } else { "" }, "f": has(10)})
            } else {
                json!({"s": "", "t": "", "c": "", "f": false})
            };
            let step = Step::new(value).time(if u.keyframes { 1.0 } else { 0.0 });
            step.run(&mut view)?;
            if u.keyframes {
                // the first frame starts the animation
                step.run(&mut view)?;
            }
            let body = view.body();
            let (section, aside) = (body.children()[0].node, body.children()[1].node);
            let at = |n| bumaga::Fragment { element: body.tree.get_node_context(n).unwrap(), tree: body.tree };
            let t = at(section).children()[1].node;
            let nodes = [body.node, section, at(section).children()[0].node, t, at(t).children()[0].node, aside, at(aside).children()[0].node];
            let mut observed = String::new();
            for user in USERS {
                // nearest definition
                let mut e = user;
                let found = loop {
                    let best = (0..SITES.len())
                        .filter(|s| has(*s) && SITES[*s].0 == e && (dynamic || ![2, 5, 9, 10].contains(s)))
                        .max_by_key(|s| SITES[*s].1);
                    if best.is_some() || e == 0 {
                        break best;
                    }
                    e = PARENT[e];
                };
                let is = aspect(&at(nodes[user]), u.aspect);
                observed.push_str(&format!("{user}:{is} "));
                let expected = match found {
                    _ if u.name == "after itself" => u.unset.to_string(),
                    Some(s) => u.kind.value(s).1,
                    None => u.unset.to_string(),
                };
                if is != expected && expected != ANY {
                    return Err(format!("{} on element {user}: {} is {is}, expected {expected}", u.name, u.aspect));
                }
            }
            ctx.step(&step.label(), &observed);
        }
        Ok(())
    })
}

const NAMES: [&str; 4] = ["--a", "--b", "--c", "--d"];

/// Definitions of a variable in terms of the others.
fn right_sides(n: usize, lists: bool) -> Vec<String> {
    let mut out = vec!["5px".to_string()];
    for v in &NAMES[..n] {
        out.push(format!("var({v})"));
    }
    if lists {
        out.push("var(--a) var(--b)".to_string());
        out.push("rgb(var(--c), 1, 1)".to_string());
    }
    out
}

/// Resolve in the tree body > section > div; `lexical` takes variables of a definition from where it stands.
fn resolve(
    defs: &[Option<(usize, String)>],
    value: &str,
    node: usize,
    lexical: bool,
    path: &mut Vec<String>,
) -> Option<Vec<String>> {
    let mut out = vec![];
    for token in value.split(' ') {
        let Some(name) = token.strip_prefix("var(").and_then(|t| t.strip_suffix(')')) else {
            out.push(token.to_string());
            continue;
        };
        if path.contains(&name.to_string()) {
            return None;
        }
        let i = NAMES.iter().position(|n| *n == name)?;
        let (at, definition) = defs[i].as_ref().filter(|d| d.0 <= node)?;
        path.push(name.to_string());
        let inner = resolve(defs, definition, if lexical { *at } else { node }, lexical, path);
        path.pop();
        out.extend(inner?);
    }
    Some(out)
}

/// All graphs of definitions over some variables, also with cycles and undefined ones.
fn graphs(name: &str, n: usize, places: usize, lists: bool) -> Family {
    let values = right_sides(n, lists);
    let choices = (values.len() * places + 1) as u64;
    Family::new(name, choices.pow(n as u32), move |index, ctx| {
        let defs: Vec<Option<(usize, String)>> = digits(index, choices, n)
            .iter()
            .map(|c| {
                (*c > 0).then(|| ((c - 1) % places + (3 - places), values[(c - 1) / places].clone()))
            })
            .collect();
        let block = |node: usize| -> String {
            defs.iter()
                .zip(NAMES)
                .filter_map(|(d, name)| d.as_ref().filter(|d| d.0 == node).map(|d| format!("{name}: {}; ", d.1)))
                .collect()
        };
        let css = format!(
            "body {{ {} }} section {{ {} }} div {{ height: 3px; width: var(--a); padding-top: var(--b); margin: 1px var(--a); min-width: 4px; {}}}",
            block(0), block(1), block(2)
        );
        ctx.begin(&css);
        let mut view = view("<html><body><section><div></div></section></body></html>", &css)?;
        let step = Step::new(json!({}));
        step.run(&mut view)?;
        let body = view.body();
        let section = body.children()[0].node;
        let div = body.tree.children(section).unwrap()[0];
        let div = bumaga::Fragment { element: body.tree.get_node_context(div).unwrap(), tree: body.tree };
        let mut observed = String::new();
        for (value, name, unset) in [
            ("3px", "layout.height", "Auto"),
            ("4px", "layout.min_width", "Auto"),
            ("var(--a)", "layout.width", "Auto"),
            ("var(--b)", "layout.padding.top", "Length(0.0)"),
        ] {
            let is = aspect(&div, name);
            observed.push_str(&format!("{name}:{is} "));
            let one = |lexical| {
                let tokens = resolve(&defs, value, 2, lexical, &mut vec![]);
                match tokens.as_deref() {
                    Some([one]) if one.ends_with("px") => format!("Length({}.0)", one.trim_end_matches("px")),
                    _ => unset.to_string(),
                }
            };
            let (expected, other) = (one(true), one(false));
            if expected == other && is != expected {
                return Err(format!("{name} is {is}, expected {expected}"));
            }
        }
        ctx.step(&step.label(), &observed);
        Ok(())
    })
}

type Layers = Vec<Vec<String>>;

fn layers(css: &str) -> Layers {
    css.split(", ").map(|layer| layer.split(' ').map(str::to_string).collect()).collect()
}

/// Put in the values of variables; a list of values continues the list it is used in.
fn expand(defs: &[(&str, &str)], value: &Layers, path: &mut Vec<String>) -> Option<Layers> {
    let mut out: Layers = vec![];
    for layer in value {
        out.push(vec![]);
        for token in layer {
            let Some(name) = token.strip_prefix("var(").and_then(|t| t.strip_suffix(')')) else {
                out.last_mut().unwrap().push(token.clone());
                continue;
            };
            if path.iter().any(|p| p == name) {
                return None;
            }
            let (_, definition) = defs.iter().find(|d| d.0 == name && !d.1.is_empty())?;
            path.push(name.to_string());
            let inner = expand(defs, &layers(definition), path)?;
            path.pop();
            for (i, layer) in inner.into_iter().enumerate() {
                if i > 0 {
                    out.push(vec![]);
                }
                out.last_mut().unwrap().extend(layer);
            }
        }
    }
    Some(out)
}

const LIST_PLACES: [&str; 4] = ["own rule", "rules of the body and below", "inline", "keyframes"];

/// Variables with lists of values, in lists of values and as arguments of functions.
fn lists() -> Family {
    // 0..2: layers of colors, arguments, pairs in layers
    const A: [[&str; 8]; 3] = [
        ["red", "blue, white", "var(--b)", "var(--b), red", "red, var(--b)", "var(--b), var(--b)", "green, var(--c), blue", ""],
        ["1", "2, 3", "var(--b)", "var(--b), 4", "5, var(--b)", "var(--b), var(--b)", "6, var(--c), 7", ""],
        ["1px", "2px, 3px", "var(--b)", "var(--b) 4px", "5px var(--b)", "var(--b), var(--b)", "6px var(--c), 7px", ""],
    ];
    const B: [[&str; 6]; 3] = [
        ["red", "blue, white", "var(--c)", "var(--c), red", "green, var(--c), white", "var(--a)"],
        ["1", "2, 3", "var(--c)", "var(--c), 8", "9, var(--c), 10", "var(--a)"],
        ["1px", "2px, 3px", "var(--c)", "var(--c), 8px", "9px var(--c), 10px", "var(--a)"],
    ];
    const C: [[&str; 4]; 3] = [
        ["white", "red, green", "var(--a)", ""],
        ["11", "12, 13", "var(--a)", ""],
        ["11px", "12px, 13px 14px", "var(--a)", ""],
    ];
    const USE: [[&str; 6]; 3] = [
        ["var(--a)", "green, var(--a)", "var(--a), green", "var(--b), var(--a)", "var(--a), var(--c), red", "var(--a), var(--a)"],
        ["var(--a)", "20, var(--a)", "var(--a), 20", "var(--b), var(--a)", "20, var(--a), 21", "21, 20, var(--c)"],
        ["var(--a)", "20px, var(--a)", "20px var(--a)", "var(--b), var(--a)", "var(--a) 20px", "var(--a), 21px var(--c)"],
    ];
    let bases = [3, 4, 6, 8, 6, 4];
    Family::new("lists", bases.iter().product(), move |index, ctx| {
        let [kind, place, u, a, b, c] = mixed(index, &bases)[..] else { unreachable!() };
        let defs = [("--a", A[kind][a]), ("--b", B[kind][b]), ("--c", C[kind][c])];
        let def = |i: usize| {
            let (name, value) = defs[i];
            if value.is_empty() { String::new() } else { format!("{name}: {value}; ") }
        };
        let list = USE[kind][u];
        let used = match kind {
            0 => format!("background-color: {list};"),
            1 => format!("color: rgb({list});"),
            _ => format!("background-position: {list};"),
        };
        let (html, css) = match place {
            0 => ("", format!("div {{ {used} {}{}{} }}", def(0), def(1), def(2))),
            1 => ("", format!("body {{ {}}} * {{ {}}} div {{ {}{used} }}", def(2), def(1), def(0))),
            2 => ("inline", format!("body {{ {} }}", def(1))),
            _ => ("", format!("div {{ {}{}{}animation: k 100s; }} @keyframes k {{ from {{ {used} }} to {{ {used} }} }}", def(0), def(1), def(2))),
        };
        let html = if html.is_empty() { String::new() } else { format!("style=\"{}{used}{}\"", def(0), def(2)) };
        let html = format!("<html><body><div {html}></div></body></html>");
        let css = css.replace("k 100s", "100s k");
        ctx.begin(&format!("{}\n{html}\n{css}", LIST_PLACES[place]));
        let mut view = view(&html, &css)?;
        let step = Step::new(json!({})).time(if place == 3 { 1.0 } else { 0.0 });
        step.run(&mut view)?;
        step.run(&mut view)?;
        let body = view.body();
        let div = body.children()[0];
        let is: Vec<String> = match kind {
            0 => div.backgrounds.iter().map(|b| format!("{:?}", b.color)).collect(),
            1 => vec![format!("{:?}", div.color)],
            // the source moves against the position
            _ => div.backgrounds.iter().map(|b| format!("{:?}", b.src.map(|x| 0.0 - x))).collect(),
        };
        ctx.step(&step.label(), &format!("{is:?}"));
        let unset = if kind == 0 { "[0, 0, 0, 0]" } else if kind == 1 { "[0, 0, 0, 255]" } else { "[0.0, 0.0]" };
        let expected = match expand(&defs, &layers(list), &mut vec![]) {
            None => vec![],
            Some(list) => match kind {
                0 => list.iter().map(|l| color_of(&l[0])).collect(),
                1 if list.len() == 3 => vec![format!("[{}, 255]", list.iter().map(|l| l[0].clone()).collect::<Vec<_>>().join(", "))],
                1 => vec![],
                _ => {
                    if list.iter().any(|l| l.len() > 2) {
                        return Ok(());
                    }
                    let px = |t: &String| format!("{}.0", t.trim_end_matches("px"));
                    list.iter().map(|l| format!("[{}, {}]", px(&l[0]), px(l.last().unwrap()))).collect()
                }
            },
        };
        for i in 0..is.len().max(expected.len()) {
            let is = is.get(i).map_or(unset, String::as_str);
            let expected = expected.get(i).map_or(unset, String::as_str);
            if is != expected {
                return Err(format!("layer {i} is {is}, expected {expected}"));
            }
        }
        Ok(())
    })
}

fn color_of(word: &str) -> String {
    let color = match word {
        "red" => [255, 0, 0, 255],
        "green" => [0, 255, 0, 255],
        "blue" => [0, 0, 255, 255],
        _ => [255, 255, 255, 255],
    };
    format!("{color:?}")
}

/// Chains of variables, each one uses the next several times; the last one is defined, undefined
/// or leads back.
fn tangles() -> Family {
    const LENGTHS: [usize; 16] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 20, 30, 60, 120, 400];
    const ENDS: [&str; 6] = ["4px", "var(--u)", "var(--v0)", "var(--last)", "var(--middle)", "rgb(var(--v0), 1, 1)"];
    const LINKS: [&str; 8] =
        ["N", "N N", "N N N", "N, N", "N, N, N N", "rgb(N, N, 1)", "rgb(N, rgb(1, N, 2), N)", "2px N, rgb(3, N, N)"];
    const USES: [&str; 5] = ["width: V;", "margin: 1px V;", "background-color: V;", "color: rgb(V, V, 1);", "padding: 2px; padding: V;"];
    let bases = [LENGTHS.len() as u64, ENDS.len() as u64, LINKS.len() as u64, USES.len() as u64];
    Family::new("tangles", bases.iter().product(), move |index, ctx| {
        let [n, end, link, u] = mixed(index, &bases)[..] else { unreachable!() };
        let n = LENGTHS[n];
        let mut css = "div { height: 3px; ".to_string();
        for i in 0..n {
            css.push_str(&format!("--v{i}: {}; ", LINKS[link].replace('N', &format!("var(--v{})", i + 1))));
        }
        let last = ENDS[end].replace("last", &format!("v{n}")).replace("middle", &format!("v{}", n / 2));
        css.push_str(&format!("--v{n}: {last}; "));
        css.push_str(&USES[u].replace('V', "var(--v0)"));
        css.push_str(" min-width: 5px; }");
        ctx.begin(&css);
        let mut view = view("<html><body><div></div></body></html>", &css)?;
        let step = Step::new(json!({}));
        step.run(&mut view)?;
        let body = view.body();
        let div = body.children()[0];
        let mut expected = vec![("layout.height", "Length(3.0)"), ("layout.min_width", "Length(5.0)")];
        if end > 0 {
            expected.extend([
                ("layout.width", "Auto"),
                ("layout.margin.left", "Length(0.0)"),
                ("bg0.color", "[0, 0, 0, 0]"),
                ("color", "[0, 0, 0, 255]"),
                ("layout.padding.top", "Length(0.0)"),
            ]);
        } else if link == 0 {
            match u {
                0 => expected.push(("layout.width", "Length(4.0)")),
                1 => expected.push(("layout.margin.right", "Length(4.0)")),
                4 => expected.push(("layout.padding.top", "Length(4.0)")),
                _ => {}
            }
        }
        let mut observed = String::new();
        for (name, expected) in expected {
            let is = aspect(&div, name);
            observed.push_str(&format!("{name}:{is} "));
            if is != expected {
                return Err(format!("{name} is {is}, expected {expected}"));
            }
        }
        ctx.step(&step.label(), &observed);
        Ok(())
    })
}

/// Tokens of a value: words, functions with their arguments, and commas.
fn tokens(value: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    let (mut depth, mut quoted) = (0, false);
    for c in value.chars() {
        match c {
            ' ' if depth == 0 && !quoted => out.push(String::new()),
            ',' if depth == 0 && !quoted => out.push(",".to_string()),
            c => {
                depth += (c == '(') as i32 - (c == ')') as i32;
                if c == '"' {
                    quoted = !quoted;
                }
                out.last_mut().unwrap().push(c);
            }
        }
    }
    out.retain(|t| !t.is_empty());
    out
}

/// Each value of each declaration replaced by an undefined variable, after another declaration
/// of the property.
fn undefined() -> Family {
    const NOTHING: [&str; 4] = ["var(--u)", "var(--l)", "var(--n)", "rgb(var(--u), 1, 2)"];
    let mut cases = vec![];
    for d in all() {
        let Some((property, value)) = d.css.trim_end_matches(';').split_once(": ") else { continue };
        let tokens = tokens(value);
        for i in 0..tokens.len() {
            if tokens[i] == "," {
                continue;
            }
            for nothing in NOTHING {
                let mut tokens = tokens.clone();
                tokens[i] = nothing.to_string();
                let css = format!("{property}: {};", tokens.join(" ").replace(" , ", ", "));
                cases.push((d.clone(), css));
            }
        }
    }
    let bases = spread(1);
    let start = std::sync::OnceLock::new();
    Family::new("undefined", cases.len() as u64 * 2, move |index, ctx| {
        let (d, css) = &cases[(index / 2) as usize];
        let base = bases.iter().find(|b| b.property == d.property).expect("base");
        let before = if index % 2 == 0 { "" } else { &base.css };
        let css = format!("div {{ --l: var(--l); --n: 1px var(--u); {before} {css} }}");
        ctx.begin(&css);
        let mut view = view("<html><body><div></div></body></html>", &css)?;
        let step = Step::new(json!({}));
        step.run(&mut view)?;
        let is = seen(&view.body().children()[0]);
        ctx.step(&step.label(), &format!("{is:?}"));
        let initial: &Result<Aspects, String> = start.get_or_init(initial);
        compare(&is, initial.as_ref()?)
    })
}

/// Definitions in two of many levels, used in all of them and by siblings.
fn deep() -> Family {
    const N: usize = 20;
    let mut html = String::new();
    for i in (0..N).rev() {
        html = format!("<i></i><p @class=\"{{c{i}}}\" @style=\"{{s{i}}}\">{html}<i></i></p><i></i>");
    }
    let html = format!("<html><body>{html}</body></html>");
    let others: String = (0..30).map(|i| format!("--o{i}: {i}px; ")).collect();
    let css = format!("body {{ {others} }} i {{ width: var(--x); height: var(--o17); }} .a {{ --x: 3px; --o29: 1px; }} .b {{ --x: 5px; }} .c {{ --y: 7px; --x: var(--y); }}");
    let kinds = [("a", 3.0), ("b", 5.0), ("c", 7.0), ("", 9.0)];
    let n = (N * kinds.len()) as u64;
    Family::new("deep", n * n, move |index, ctx| {
        let m = mixed(index, &[N as u64, 4, N as u64, 4]);
        ctx.begin(&format!("{html}\n{css}"));
        let mut view = view(&html, &css)?;
        let (a, b) = ((m[0], m[1]), (m[2], m[3]));
        for set in [vec![a, b], vec![b], vec![], vec![b, a]] {
            let mut value = json!({});
            let mut levels = [None; N];
            for (i, k) in set {
                // an inline definition above a class
                if k == 3 {
                    value[format!("s{i}")] = json!("--x: 9px;");
                } else {
                    value[format!("c{i}")] = json!(kinds[k].0);
                }
                if levels[i].is_none() || k == 3 || levels[i] != Some(9.0) {
                    levels[i] = Some(kinds[k].1);
                }
            }
            let step = Step::new(value);
            step.run(&mut view)?;
            let mut seen = String::new();
            let result = nearest(&view.body(), &levels, None, &mut seen);
            ctx.step(&step.label(), &seen);
            result?;
        }
        Ok(())
    })
}

fn nearest(f: &Fragment, levels: &[Option<f64>], above: Option<f64>, seen: &mut String) -> Result<(), String> {
    for child in f.children() {
        if child.tag == "i" {
            let is = aspect(&child, "layout.width");
            let expected = above.map_or("Auto".to_string(), |x| format!("Length({x:?})"));
            seen.push_str(&is);
            if is != expected {
                return Err(format!("{} levels above the innermost: width is {is}, expected {expected}", levels.len()));
            }
            let other = aspect(&child, "layout.height");
            if other != "Length(17.0)" {
                return Err(format!("height is {other}, expected that of the other variable"));
            }
        } else {
            nearest(&child, &levels[1..], levels[0].or(above), seen)?;
        }
    }
    Ok(())
}

pub fn plan(thorough: bool) -> Plan {
    let mut families = vec![
        sites(),
        lists(),
        tangles(),
        undefined(),
        deep(),
        graphs("graphs", 3, 3, true),
        graphs("graphs-of-four", 4, 1, true),
    ];
    if thorough {
        families.push(graphs("graphs-of-four-deep", 4, 3, true));
    }
    (
        families,
        assumed(&["where a variable of an ancestor uses one redefined below is not judged"]),
    )
}
