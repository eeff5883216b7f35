use super::*;
use bumaga::Fragment;

/// Every image shows the source of the reference tree, nothing else shows a picture.
fn pictures(f: &Fragment, n: &Node, path: &str, seen: &mut String) -> Result<(), String> {
    if f.backgrounds.iter().any(|b| b.image.is_some() || b.is_src) {
        return Err(format!("{path}: shows a picture itself"));
    }
    let kids = f.children();
    if n.tag == "img" {
        let src = n.attrs.get("src");
        let shown: Vec<_> = kids
            .iter()
            .flat_map(|k| k.backgrounds.iter().map(|b| (b.image.clone(), b.is_src)))
            .collect();
        seen.push_str(&format!("{shown:?}"));
        if kids.len() != 1 || kids[0].text.is_some() || kids[0].children().len() != 0 {
            return Err(format!("{path}: {} children, expected the picture", kids.len()));
        }
        if let Some(src) = src {
            if shown != [(Some(src.clone()), true)] {
                return Err(format!("{path}: shows {shown:?}, expected {src:?}"));
            }
        }
        return Ok(());
    }
    for (i, (k, n)) in kids.iter().zip(&n.kids).enumerate() {
        pictures(k, n, &format!("{path}/{i}{}", n.tag), seen)?;
    }
    Ok(())
}

fn histories(name: &str, docs: Vec<Doc>, values: Vec<Value>, depth: usize) -> Family {
    let n = values.len() as u64;
    let per = n.pow(depth as u32);
    let htmls: Vec<String> = docs.iter().map(|d| d.html()).collect();
    Family::new(name, per * docs.len() as u64, move |index, ctx| {
        let d = (index / per) as usize;
        ctx.begin(&htmls[d]);
        let mut view = view(&htmls[d], "img { width: 8px; height: 6px; }")?;
        for i in digits(index % per, n, depth) {
            let step = Step::new(values[i].clone());
            step.run(&mut view)?;
            let expected = Reference { root: &values[i], translate: &|s| s.to_string() }.body(&docs[d]);
            let mut seen = String::new();
            let result = compare_tree(&view.body(), &expected, &mut seen)
                .and_then(|_| pictures(&view.body(), &expected, "body", &mut seen));
            ctx.step(&step.label(), &seen);
            result?;
        }
        Ok(())
    })
}

fn img(attrs: Vec<A>) -> T {
    el("img", attrs, vec![])
}

fn sources() -> Vec<Vec<A>> {
    vec![
        vec![at("src", "a.png")],
        vec![bind("src", "a.png"), at("alt", "src")],
        vec![bind("src", "{x}")],
        vec![bind("src", "{x}.png"), bind("alt", "{y}")],
        vec![bind("src", "a/{y}/{x}")],
        vec![bind("src", "{x | wrap}")],
        vec![bind("alt", "{x}"), at("src", "a b")],
        vec![bind("src", "{x}{x}"), flag("hidden", "y")],
    ]
}

fn documents() -> Vec<Doc> {
    let mut docs = vec![];
    for s in sources() {
        let it = |extra: Vec<A>| {
            let mut all = s.clone();
            all.extend(extra);
            img(all)
        };
        let mut add = |body: Vec<T>| docs.push(Doc::new(body));
        add(vec![it(vec![])]);
        add(vec![it(vec![when("y")]), el("p", vec![bind("src", "{x}")], vec![])]);
        add(vec![it(vec![unless("x")]), text("t")]);
        add(vec![div(vec![when("x")], vec![it(vec![]), it(vec![when("y")])])]);
        add(vec![it(vec![repeat("x", 2, "l")]), it(vec![])]);
        add(vec![div(vec![repeat("x", 2, "l")], vec![text("{x}"), it(vec![unless("y")])])]);
        add(vec![it(vec![alias("x", "y")]), it(vec![])]);
        docs.push(Doc {
            templates: vec![("pic".to_string(), el("p", vec![], vec![it(vec![]), text("{x}")]))],
            body: vec![link("pic", vec![repeat("x", 2, "l")]), link("pic", vec![alias("x", "y")])],
        });
    }
    docs
}

/// Box of an image: declarations, and what padding and border take at the left, top, right, bottom.
const BOXES: [(&str, [f32; 4]); 5] = [
    ("", [0.0; 4]),
    ("padding: 1px 2px 3px 4px;", [4.0, 1.0, 2.0, 3.0]),
    ("border-width: 3px;", [3.0, 3.0, 3.0, 3.0]),
    ("padding: 2px 0px; border-width: 1px 5px;", [5.0, 3.0, 5.0, 3.0]),
    ("margin: 3px; padding-left: 7px;", [7.0, 0.0, 0.0, 0.0]),
];
const SIZES: [&str; 7] = [
    "",
    "width: 40px; height: 30px;",
    "width: 50%; height: 50%;",
    "width: 40px;",
    "height: 30px;",
    "min-width: 33px; min-height: 21px;",
    "width: 200px; height: 150px; max-width: 90%; max-height: 45px;",
];
const DISPLAYS: [&str; 4] = ["", "display: flex;", "display: grid;", "display: flex; flex-direction: column; align-items: center;"];
const PARENTS: [&str; 6] = [
    "",
    "width: 100px; height: 80px;",
    "display: flex; width: 100px; height: 80px;",
    "display: flex; flex-direction: column; width: 100px; height: 80px; align-items: flex-end;",
    "display: flex; width: 30px; height: 80px; align-items: flex-start;",
    "display: grid; width: 100px; height: 80px;",
];

fn covers(f: &Fragment, cut: [f32; 4], seen: &mut String) -> Result<(), String> {
    let kids = f.children();
    let picture = &kids[0];
    let position = [f.position[0] + cut[0], f.position[1] + cut[1]];
    let size = [f.size[0] - cut[0] - cut[2], f.size[1] - cut[1] - cut[3]];
    seen.push_str(&format!("{:?} {:?} {:?} {:?}|", f.position, f.size, picture.position, picture.size));
    let near = |a: [f32; 2], b: [f32; 2]| (a[0] - b[0]).abs() < 0.51 && (a[1] - b[1]).abs() < 0.51;
    if !near(picture.position, position) || !near(picture.size, size) {
        return Err(format!(
            "picture covers {:?} {:?}, expected {position:?} {size:?} in the image {:?} {:?}",
            picture.position, picture.size, f.position, f.size
        ));
    }
    if f.scrolling.is_some() {
        return Err(format!("the picture overflows the image {:?} {:?}", f.size, f.content_size));
    }
    Ok(())
}

fn layouts(depth: usize) -> Family {
    // style of the image, display, the next box and size
    let moves: Vec<u64> = vec![BOXES.len() as u64, SIZES.len() as u64, DISPLAYS.len() as u64];
    let looks: u64 = moves.iter().product();
    let mut bases = vec![PARENTS.len() as u64, 3];
    for _ in 0..depth {
        bases.push(looks);
    }
    let count = bases.iter().product();
    Family::new("layouts", count, move |index, ctx| {
        let d = mixed(index, &bases);
        let other = ["", "<p></p>", "<img src=\"b\"/><p></p>"][d[1]];
        let html = format!("<html><body><div style=\"{}\"><img src=\"a\" @style=\"{{s}}\"/>{other}</div></body></html>", PARENTS[d[0]]);
        let css = "body { width: 300px; height: 200px; } p { width: 11px; height: 13px; }";
        ctx.begin(&html);
        let mut view = view(&html, css)?;
        for look in &d[2..] {
            let l = mixed(*look as u64, &moves);
            let style = format!("{}{}{}", BOXES[l[0]].0, SIZES[l[1]], DISPLAYS[l[2]]);
            let step = Step::new(json!({ "s": style }));
            step.run(&mut view)?;
            let mut seen = String::new();
            // the other image has no padding and no border
            let result = covers_first(&view, BOXES[l[0]].1, &mut seen);
            ctx.step(&step.label(), &seen);
            result?;
        }
        Ok(())
    })
}

fn covers_first(view: &bumaga::View, cut: [f32; 4], seen: &mut String) -> Result<(), String> {
    let body = view.body();
    let parents = body.children();
    let kids = parents[0].children();
    let mut first = true;
    for f in kids.iter().filter(|f| f.tag == "img") {
        covers(f, if first { cut } else { [0.0; 4] }, seen)?;
        first = false;
    }
    Ok(())
}

pub fn plan(thorough: bool) -> Plan {
    let sources = [json!("a"), json!(null), json!("b.png"), json!(7), json!("")];
    let values = objects(&[
        ("x", some(&sources)),
        ("y", some(&[json!("c"), json!(null), json!(0)])),
        ("l", some(&[json!(["p", "q"]), json!(["q"])])),
    ]);
    let mut few = values.clone();
    if !thorough {
        few.retain(|v| v["l"].as_array().map(|l| l.len()) == Some(2) || v["y"] == json!("c"));
    }
    few.push(json!({"x": "a"}));
    few.push(json!(null));
    let (many, lists) = super::long::pictures();
    (
        vec![
            histories("many", many, lists, 2),
            histories("sources", documents(), few, if thorough { 3 } else { 2 }),
            layouts(if thorough { 2 } else { 1 }),
        ],
        assumed(&["an image without a source attribute is not judged", "sizes agree to half a pixel, the grid of the layout engine"]),
    )
}
