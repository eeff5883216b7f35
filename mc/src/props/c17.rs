use super::decls::*;
use super::*;
use bumaga::Fragment;

fn seen(f: &Fragment) -> Aspects {
    let mut a = vec![];
    style_aspects(f, &mut a);
    a
}

fn get(a: &Aspects, name: &str) -> String {
    a.iter().find(|a| a.0 == name).map(|a| a.1.clone()).unwrap_or("no such aspect".to_string())
}

const INHERITED: [&str; 6] = ["color", "font.family", "font.size", "font.style", "font.weight", "pointer_events"];

fn inherited(aspect: &str) -> bool {
    INHERITED.contains(&aspect)
}

/// What a child of an element with these aspects starts with.
fn child_of(parent: &Aspects, initial: &Aspects) -> Aspects {
    initial
        .iter()
        .map(|(name, value)| (*name, if inherited(name) { get(parent, name) } else { value.clone() }))
        .collect()
}

const CHAIN: &str = "<html><body @class=\"{a}\"><section @class=\"{b}\" @style=\"{s}\">one<i><u @class=\"{c}\" ?=\"{v}\">two<img src=\"x\" @class=\"{c}\"></u>{t}</i></section><p></p></body></html>";

/// body > section > i > u > img with its picture; texts below section, u and i.
fn check_chain(body: &Fragment, levels: [&Aspects; 5], shown: bool) -> Result<String, String> {
    let path = |indices: &[usize]| {
        let mut f = *body;
        for i in indices {
            let node = f.tree.children(f.node).unwrap()[*i];
            f = Fragment { element: f.tree.get_node_context(node).unwrap(), tree: body.tree };
        }
        f
    };
    let mut observed = String::new();
    let mut style = |name: &str, f: Fragment, expected: &Aspects| -> Result<(), String> {
        let is = seen(&f);
        // texts and pictures have no box of their own
        let part = f.text.is_some() || name == "picture";
        let is = if part { is.into_iter().filter(|a| inherited(a.0) || a.0 == "visible").collect() } else { is };
        for (aspect, value) in &is {
            let expected = get(expected, aspect);
            // effective opacity is judged on its own
            if *aspect != "opacity" && *value != expected && expected != ANY {
                return Err(format!("{name}: {aspect} is {value}, expected {expected}"));
            }
        }
        observed.push_str(&format!("{is:?}"));
        Ok(())
    };
    let [b, s, i, u, img] = levels;
    style("body", path(&[]), b)?;
    style("section", path(&[0]), s)?;
    style("text in section", path(&[0, 0]), s)?;
    style("i", path(&[0, 1]), i)?;
    if shown {
        style("u", path(&[0, 1, 0]), u)?;
        style("text in u", path(&[0, 1, 0, 0]), u)?;
        style("img", path(&[0, 1, 0, 1]), img)?;
        style("picture", path(&[0, 1, 0, 1, 0]), img)?;
    }
    style("text in i", path(&[0, 1, shown as usize]), i)?;
    Ok(observed)
}

/// Two declarations of one property, on and off on three levels, before and after a change.
fn levels(thorough: bool) -> Family {
    let mut pairs: Vec<(Decl, Decl)> = vec![];
    let all = all();
    let mut i = 0;
    while i < all.len() {
        let list: Vec<&Decl> = all[i..].iter().take_while(|d| d.property == all[i].property).collect();
        i += list.len();
        // no units which depend on the font here
        let list: Vec<&Decl> = list.into_iter().filter(|d| !d.css.contains("em") && !(d.property == "font-size" && d.css.contains('%'))).collect();
        let pick = list.len() / 3;
        if list.len() > 1 {
            let other = (pick + list.len() / 2) % list.len();
            pairs.push((list[pick].clone(), list[other].clone()));
            if thorough || inherited(list[0].sets.first().map(|s| s.0).unwrap_or("")) {
                pairs.push((list[list.len() - 1].clone(), list[0].clone()));
            }
        }
    }
    let n = pairs.len() as u64;
    Family::new("levels", n * 27 * 27 * 2, move |index, ctx| {
        let [p, before, after, how] = mixed(index, &[n, 27, 27, 2])[..] else { unreachable!() };
        let (x, y) = &pairs[p];
        let css = format!(".x {{ {} }} .y {{ {} }}", x.css, y.css);
        ctx.begin(&format!("{CHAIN}\n{css}"));
        let mut view = view(CHAIN, &css)?;
        let start = initial()?;
        for (k, state) in [before, after].into_iter().enumerate() {
            let choice = digits(state as u64, 3, 3);
            let class = |l: usize| ["", "x", "y"][choice[l]];
            let inline = ["", &x.css, &y.css][choice[1]];
            let shown = k == 1 || how == 0;
            let value = if how == 0 {
                json!({"a": class(0), "b": class(1), "c": class(2), "s": "", "v": shown, "t": ""})
            } else {
                json!({"a": class(0), "b": "", "c": class(2), "s": inline, "v": shown, "t": "t"})
            };
            let step = Step::new(value);
            step.run(&mut view)?;
            let mut chain = vec![];
            let mut parent = start.clone();
            for l in [0, 1, 9, 2, 2] {
                let mut a = child_of(&parent, &start);
                if l < 9 && choice[l] > 0 {
                    set(&mut a, if choice[l] == 1 { x } else { y });
                }
                parent = a.clone();
                chain.push(a);
            }
            let observed = check_chain(&view.body(), [&chain[0], &chain[1], &chain[2], &chain[3], &chain[4]], shown)?;
            ctx.step(&step.label(), &observed);
        }
        Ok(())
    })
}

/// All subsets of inherited properties on every level.
fn subsets(thorough: bool) -> Family {
    let decls: Vec<Decl> = [
        ("color: red;", "color: blue;"),
        ("font-family: \"Foo\";", "font-family: \"Bar Baz\";"),
        ("font-size: 3px;", "font-size: 1.5px;"),
        ("font-style: italic;", "font-style: oblique;"),
        ("font-weight: bold;", "font-weight: 1000;"),
        ("pointer-events: none;", "pointer-events: auto;"),
    ]
    .iter()
    .flat_map(|(a, b)| [*a, *b])
    .map(|css| all().into_iter().find(|d| d.css == css).expect(css))
    .collect();
    let count = if thorough { 64 * 64 * 64 } else { 64 * 64 };
    Family::new("subsets", count, move |index, ctx| {
        let masks = [index % 64, index / 64 % 64, index / 4096];
        let start = initial()?;
        let mut chain = vec![];
        let mut css = vec![];
        let mut parent = start.clone();
        for l in [0, 1, 9, 2, 9] {
            let mut a = child_of(&parent, &start);
            if l < 9 {
                let mut block = String::new();
                for p in 0..6 {
                    if masks[l] >> p & 1 == 1 {
                        let d = &decls[p * 2 + l % 2];
                        set(&mut a, d);
                        block.push_str(&d.css);
                    }
                }
                css.push(block);
            }
            parent = a.clone();
            chain.push(a);
        }
        let css = format!("body {{ {} }} section {{ {} }} u {{ {} }}", css[0], css[1], css[2]);
        ctx.begin(&format!("{CHAIN}\n{css}"));
        let mut view = view(CHAIN, &css)?;
        let step = Step::new(json!({"v": true}));
        step.run(&mut view)?;
        let observed = check_chain(&view.body(), [&chain[0], &chain[1], &chain[2], &chain[3], &chain[4]], true)?;
        ctx.step(&step.label(), &observed);
        Ok(())
    })
}

/// Opacities of a chain with texts, before and after a change.
fn opacity(deep: bool) -> Family {
    let values = ["", "opacity: 0.5;", "opacity: 0.25;", "opacity: 0;", "opacity: 1;", "opacity: 75%;"];
    let numbers = [1.0f32, 0.5, 0.25, 0.0, 1.0, 0.75];
    let html = "<html><body @style=\"{a}\">x<section @style=\"{b}\">y<p @style=\"{c}\" ?=\"{v}\">z<img src=\"x\" @style=\"{d}\"></p></section><u></u></body></html>";
    let n = values.len() as u64;
    let per = n.pow(4);
    // the second state differs from the first one in one or (deep) any levels
    let changes = if deep { per } else { 4 * n };
    Family::new("opacity", per * changes, move |index, ctx| {
        ctx.begin(html);
        let mut view = view(html, "")?;
        let first = digits(index % per, n, 4);
        let second = if deep {
            digits(index / per, n, 4)
        } else {
            let mut s = first.clone();
            s[(index / per % 4) as usize] = (index / per / 4) as usize;
            s
        };
        for (k, state) in [first, second].into_iter().enumerate() {
            let shown = k == 1 || index % 2 == 0;
            let step = Step::new(json!({
                "a": values[state[0]], "b": values[state[1]], "c": values[state[2]], "d": values[state[3]], "v": shown
            }));
            step.run(&mut view)?;
            let mut observed = String::new();
            walk(&view.body(), 1.0, &state, 0, &numbers, &mut observed)?;
            ctx.step(&step.label(), &observed);
        }
        Ok(())
    })
}

fn walk(f: &Fragment, above: f32, state: &[usize], depth: usize, numbers: &[f32], out: &mut String) -> Result<(), String> {
    let own = if f.text.is_some() || f.tag == "u" || depth > 3 { 1.0 } else { numbers[state[depth]] };
    let expected = above * own;
    out.push_str(&format!("{} {} ", f.tag, f.opacity));
    if (f.opacity - expected).abs() > 1e-5 {
        return Err(format!("{}: opacity is {}, expected {expected}", f.tag, f.opacity));
    }
    for c in f.children() {
        walk(&c, expected, state, depth + 1, numbers, out)?;
    }
    Ok(())
}

fn px(n: f32, unit: &str, font: f32, viewport: [f32; 2]) -> f32 {
    let [w, h] = viewport;
    match unit {
        "px" => n,
        "em" => n * font,
        "rem" => n * 16.0,
        "vw" => n * w / 100.0,
        "vh" => n * h / 100.0,
        "vmin" => n * w.min(h) / 100.0,
        "vmax" => n * w.max(h) / 100.0,
        "%" => n * font / 100.0,
        _ => unreachable!(),
    }
}

fn close(a: f32, b: f32) -> bool {
    (a - b).abs() <= 1e-4 * b.abs().max(1.0)
}

/// The number in an aspect as `Length(3.0)`.
fn number(aspect: &str) -> Option<f32> {
    aspect
        .trim_start_matches("Length(")
        .trim_start_matches("Number(")
        .trim_end_matches(')')
        .parse()
        .ok()
}

/// Units in every length property for fonts and viewports that change.
fn units(thorough: bool) -> Family {
    let fonts: [(&str, f32, &str); 9] = [
        ("", 0.0, ""),
        ("20px", 20.0, "px"),
        ("2em", 2.0, "em"),
        ("150%", 150.0, "%"),
        ("0.5rem", 0.5, "rem"),
        ("5vw", 5.0, "vw"),
        ("3vmin", 3.0, "vmin"),
        ("2vmax", 2.0, "vmax"),
        ("4vh", 4.0, "vh"),
    ];
    let lengths: [(f32, &str); 9] = [
        (3.5, "px"),
        (2.0, "em"),
        (0.5, "rem"),
        (10.0, "vw"),
        (2.5, "vh"),
        (1.0, "vmin"),
        (20.0, "vmax"),
        (-1.5, "em"),
        (-3.0, "vw"),
    ];
    let properties: [(&str, &str); 13] = [
        ("width", "layout.width"),
        ("min-height", "layout.min_height"),
        ("max-width", "layout.max_width"),
        ("flex-basis", "layout.flex_basis"),
        ("margin-left", "layout.margin.left"),
        ("top", "layout.top"),
        ("padding-bottom", "layout.padding.bottom"),
        ("row-gap", "layout.gap.row"),
        ("border-right-width", "border.right.width"),
        ("border-top-left-radius", "radius.0"),
        ("font-size", "font.size"),
        ("column-gap", "layout.gap.column"),
        ("height", "layout.height"),
    ];
    let viewports = [[800.0, 600.0], [300.0, 600.0], [300.0, 1000.0], [1024.0, 512.0]];
    let (nf, nl, np, nv) = (fonts.len() as u64, lengths.len() as u64, properties.len() as u64, viewports.len() as u64);
    let seconds = if thorough { nf * nf } else { nf };
    Family::new("units", nf * nf * nl * np * nv * nv * seconds / if thorough { 1 } else { nv }, move |index, ctx| {
        let [p, l, f0, f1, v0, v1, g] = mixed(index, &[np, nl, nf, nf, nv, if thorough { nv } else { 1 }, seconds])[..] else {
            unreachable!()
        };
        let v1 = if thorough { v1 } else { (v0 + 1 + g) % viewports.len() };
        let (n, unit) = lengths[l];
        let (property, aspect) = properties[p];
        let html = "<html><body @style=\"{a}\"><section @style=\"{b}\"><div class=\"t\" ?=\"{v}\">x</div></section></body></html>";
        let css = format!(".t {{ {property}: {n}{unit}; }}");
        ctx.begin(&format!("{html}\n{css}"));
        let mut view = view(html, &css)?;
        let states = [
            (f0, f1, v0, true),
            (f0, f1, v1, true),
            (g % fonts.len(), if thorough { g / fonts.len() } else { f1 }, v1, index % 3 > 0),
            (g % fonts.len(), f0, v0, true),
        ];
        for (a, b, v, shown) in states {
            let style = |f: usize| if f == 0 { String::new() } else { format!("font-size: {};", fonts[f].0) };
            let [w, h] = viewports[v];
            let step = Step::new(json!({"a": style(a), "b": style(b), "v": shown})).viewport(w, h);
            step.run(&mut view)?;
            let size = |f: usize, parent: f32| if f == 0 { parent } else { px(fonts[f].1, fonts[f].2, parent, [w, h]) };
            let body_font = size(a, 16.0);
            let section_font = size(b, body_font);
            let body = view.body();
            let section = body.children()[0].node;
            let section = Fragment { element: body.tree.get_node_context(section).unwrap(), tree: body.tree };
            let kids = section.children();
            let mut observed = format!("{} {}", body.font.size, section.font.size);
            for (name, is, expected) in [
                ("font of the body", body.font.size, body_font),
                ("font of the section", section.font.size, section_font),
            ] {
                if !close(is, expected) {
                    return Err(format!("{name} is {is}, expected {expected}"));
                }
            }
            if shown {
                let is = get(&seen(&kids[0]), aspect);
                let expected = px(n, unit, section_font, [w, h]);
                observed.push_str(&is);
                if !number(&is).is_some_and(|is| close(is, expected)) {
                    return Err(format!("{property} of {n}{unit} is {is}, expected {expected}"));
                }
                let font = if property == "font-size" { expected } else { section_font };
                let text = kids[0].children()[0].font.size;
                if !close(text, font) {
                    return Err(format!("font of the text is {text}, expected {font}"));
                }
            }
            ctx.step(&step.label(), &observed);
        }
        Ok(())
    })
}

/// Inherited values and lengths follow a parent whose values move.
fn moving(thorough: bool) -> Family {
    const STYLES: [&str; 4] = [
        "@keyframes Go { 0% { color: #102030; font-size: 10px; opacity: 1; } 100% { color: #f0e0d0; font-size: 50px; opacity: 0; } }
        .x { animation: 2s linear Go; }",
        ".z { transition: color 1s, font-size 2s, opacity 1s; color: #102030; font-size: 10px; opacity: 0.5; } .x { color: #804020; font-size: 30px; opacity: 1; }",
        "@keyframes Go { 50% { color: blue; font-size: 200%; opacity: 0.5; } }
        .x { animation: 1s linear Go; animation-iteration-count: infinite; } .z { font-size: 12px; }",
        ".z { transition: font-size 1s linear 0.5s; font-size: 20px; } .x { font-size: 2em; color: red; }",
    ];
    let html = "<html><body>a<main @class=\"z {c}\">b<p>c<i></i><u ?=\"{v}\">d<b>e</b></u></p><q ?=\"{v}\"></q></main></body></html>";
    let own = "p { width: 2em; margin: 1em; } i { color: green; height: 0.5em; } u { opacity: 0.5; } b { font-size: 0.5em; } q { font-size: 150%; padding: 1em 2rem; opacity: 0.25; }";
    let times = [0.0f32, 0.25, 0.75];
    let acts = 4 * times.len() as u64;
    let depth = if thorough { 5 } else { 3 };
    let per = acts.pow(depth as u32);
    Family::new("moving", per * STYLES.len() as u64, move |index, ctx| {
        let css = format!("{}\n{own}", STYLES[(index / per) as usize]);
        ctx.begin(&css);
        let mut view = view(html, &css)?;
        for d in digits(index % per, acts, depth) {
            let [class, shown, t] = mixed(d as u64, &[2, 2, 3])[..] else { unreachable!() };
            let step = Step::new(json!({"c": if class == 1 { "x" } else { "" }, "v": shown == 0})).time(times[t]);
            step.run(&mut view)?;
            let mut seen = String::new();
            let result = follows(&view.body(), &mut seen);
            ctx.step(&step.label(), &seen);
            result?;
        }
        Ok(())
    })
}

fn follows(parent: &Fragment, seen: &mut String) -> Result<(), String> {
    for f in parent.children() {
        let tag = f.tag.as_str();
        seen.push_str(&format!("{tag} {:?} {:?} {} {}|", f.color, f.font.size, f.self_opacity, f.opacity));
        let em = parent.font.size;
        let near = |a: f32, b: f32| (a - b).abs() < 0.001 * (1.0 + b.abs());
        let fails = |what: &str, is: String, expected: String| Err(format!("{what} of {tag:?} in {:?} is {is}, expected {expected}", parent.tag));
        if !near(f.opacity, parent.opacity * f.self_opacity) {
            return fails("opacity", format!("{}", f.opacity), format!("{} * {}", parent.opacity, f.self_opacity));
        }
        if !matches!(tag, "main" | "i") && f.color != parent.color {
            return fails("color", format!("{:?}", f.color), format!("{:?}", parent.color));
        }
        let size = match tag {
            "main" => f.font.size,
            "b" => em * 0.5,
            "q" => em * 1.5,
            _ => em,
        };
        if !near(f.font.size, size) {
            return fails("font size", format!("{}", f.font.size), format!("{size}"));
        }
        let style = f.tree.style(f.node).map_err(|e| format!("{e:?}"))?;
        let lengths = match tag {
            "p" => vec![(format!("{:?}", style.size.width), em * 2.0), (format!("{:?}", style.margin.left), em)],
            "i" => vec![(format!("{:?}", style.size.height), em * 0.5)],
            "q" => vec![(format!("{:?}", style.padding.top), em), (format!("{:?}", style.padding.right), 32.0)],
            _ => vec![],
        };
        for (is, expected) in lengths {
            let number: f32 = is.trim_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(f32::NAN);
            if !near(number, expected) {
                return fails("a length", is, format!("{expected}"));
            }
        }
        if tag == "u" && f.self_opacity != 0.5 || tag == "q" && f.self_opacity != 0.25 {
            return fails("own opacity", format!("{}", f.self_opacity), "as declared".to_string());
        }
        follows(&f, seen)?;
    }
    Ok(())
}

/// What is inherited over many levels, two of which change.
fn deep() -> Family {
    const N: usize = 20;
    const KINDS: [&str; 5] = ["o", "f", "c", "w", "e"];
    let css = ".o { opacity: 0.5; } .f { font-size: 150%; } .c { color: #0a0b0c; } .w { font-weight: bold; font-family: \"W\"; } .e { font-size: 0.5em; font-style: italic; } i { width: 2em; }";
    let mut html = "in".to_string();
    for i in (0..N).rev() {
        html = format!("<p @class=\"{{c{i}}}\">{html}<i>x</i></p>");
    }
    let html = format!("<html><body>{html}</body></html>");
    let n = (N * KINDS.len()) as u64;
    Family::new("deep", n * n, move |index, ctx| {
        let m = mixed(index, &[N as u64, 5, N as u64, 5]);
        ctx.begin(&format!("{html}\n{css}"));
        let mut view = view(&html, css)?;
        let (a, b) = ((m[0], m[1]), (m[2], m[3]));
        for set in [vec![a], vec![a, b], vec![b]] {
            let mut classes = vec![vec![]; N];
            for (i, k) in set {
                classes[i].push(KINDS[k]);
            }
            let mut value = json!({});
            for (i, c) in classes.iter().enumerate() {
                value[format!("c{i}")] = json!(c.join(" "));
            }
            let step = Step::new(value);
            step.run(&mut view)?;
            let mut seen = String::new();
            let body = view.body();
            let result = handed_down(&body, &classes, &mut seen);
            ctx.step(&step.label(), &seen);
            result?;
        }
        Ok(())
    })
}

fn handed_down(parent: &Fragment, classes: &[Vec<&str>], seen: &mut String) -> Result<(), String> {
    for f in parent.children() {
        let own: &[&str] = if f.tag == "p" { &classes[0] } else { &[] };
        let has = |c: &str| own.contains(&c);
        let look = |f: &Fragment| (f.color, f.font.size, f.font.weight, f.font.style.clone(), f.font.family.clone(), f.opacity);
        let (is, mut expected) = (look(&f), look(parent));
        if has("o") {
            expected.5 *= 0.5;
        }
        if has("f") {
            expected.1 *= 1.5;
        }
        if has("c") {
            expected.0 = [10, 11, 12, 255];
        }
        if has("w") {
            expected.2 = 700;
            expected.4 = "W".to_string();
        }
        if has("e") {
            // the rule after that of f
            expected.1 = parent.font.size * 0.5;
            expected.3 = "italic".to_string();
        }
        seen.push_str(&format!("{} {:?}|", f.tag, is));
        if is != expected {
            return Err(format!("{:?} {} levels above the innermost shows {is:?}, expected {expected:?}", f.tag, classes.len()));
        }
        if f.tag == "i" {
            let style = f.tree.style(f.node).map_err(|e| format!("{e:?}"))?;
            let (width, expected) = (format!("{:?}", style.size.width), format!("Length({:?})", parent.font.size * 2.0));
            if width != expected {
                return Err(format!("width of 2em is {width}, expected {expected}"));
            }
        }
        handed_down(&f, &classes[(f.tag == "p") as usize..], seen)?;
    }
    Ok(())
}

pub fn plan(thorough: bool) -> Plan {
    (
        vec![levels(thorough), subsets(thorough), opacity(thorough), units(thorough), moving(thorough), deep()],
        assumed(&["lengths are compared up to rounding", "text alignment and visibility are not judged as inherited"]),
    )
}
