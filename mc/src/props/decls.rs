//! The supported declarations and the aspects of an element they set.
use crate::obs::*;

pub type Aspects = Vec<(&'static str, String)>;

#[derive(Clone, Debug)]
pub struct Decl {
    pub property: &'static str,
    pub css: String,
    pub sets: Aspects,
}

/// Any value of the aspect is fine.
pub const ANY: &str = "?";

fn lengths(number: &str, more: &[(&str, &str)]) -> Vec<(String, String)> {
    // in a body with a font of 16px and a viewport of 800 by 600
    let mut out = vec![];
    for (css, px) in [
        ("0", 0.0f32),
        ("3px", 3.0),
        ("1.5px", 1.5),
        (".5px", 0.5),
        ("2em", 32.0),
        ("0.5rem", 8.0),
        ("5vw", 40.0),
        ("5vh", 30.0),
        ("1vmin", 6.0),
        ("2vmax", 16.0),
    ] {
        let value = if number.is_empty() { format!("{px:?}") } else { format!("{number}({px:?})") };
        out.push((css.to_string(), value));
    }
    for (a, b) in more {
        out.push((a.to_string(), b.to_string()));
    }
    out
}

fn colors() -> Vec<(String, String)> {
    [
        ("#010203", "[1, 2, 3, 255]"),
        ("#aAbBcC80", "[170, 187, 204, 128]"),
        ("rgb(7, 8, 9)", "[7, 8, 9, 255]"),
        ("rgb(0, 100%, 0)", "[0, 255, 0, 255]"),
        ("rgba(4, 5, 6, 0.5)", "[4, 5, 6, 127]"),
        ("rgba(4, 5, 6, 1)", "[4, 5, 6, 255]"),
        ("rgba(4, 5, 6, 0)", "[4, 5, 6, 0]"),
        ("black", "[0, 0, 0, 255]"),
        ("white", "[255, 255, 255, 255]"),
        ("red", "[255, 0, 0, 255]"),
        ("blue", "[0, 0, 255, 255]"),
        ("transparent", "[0, 0, 0, 0]"),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect()
}

fn words(pairs: &[(&str, &str)]) -> Vec<(String, String)> {
    pairs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

fn same(list: &[&str]) -> Vec<(String, String)> {
    // css keyword to the name of the variant
    list.iter()
        .map(|k| {
            let name: String = k
                .split('-')
                .map(|w| w[..1].to_uppercase() + &w[1..])
                .collect();
            (k.to_string(), name)
        })
        .collect()
}

fn optional(list: &[&str]) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> =
        same(list).into_iter().map(|(a, b)| (a, format!("Some({b})"))).collect();
    out.push(("normal".to_string(), "None".to_string()));
    out
}

/// Longhands: name, aspects they set, and values with what they set.
fn longhands() -> Vec<(&'static str, Vec<&'static str>, Vec<(String, String)>)> {
    let auto = [("50%", "Percent(0.5)"), ("auto", "Auto"), ("-2px", "Length(-2.0)")];
    let size = [("50%", "Percent(0.5)"), ("12.5%", "Percent(0.125)"), ("auto", "Auto")];
    let pad = [("50%", "Percent(0.5)")];
    let items = ["start", "end", "flex-start", "flex-end", "center", "baseline", "stretch"];
    let content = [
        "start", "end", "flex-start", "flex-end", "center", "stretch", "space-between", "space-evenly",
        "space-around",
    ];
    let overflow = [
        ("visible", "Visible"),
        ("hidden", "Hidden"),
        ("clip", "Clip"),
        ("scroll", "Scroll"),
        ("auto", "Scroll"),
    ];
    let mut out = vec![];
    for (p, a) in [
        ("margin-top", "layout.margin.top"),
        ("margin-right", "layout.margin.right"),
        ("margin-bottom", "layout.margin.bottom"),
        ("margin-left", "layout.margin.left"),
        ("left", "layout.left"),
        ("right", "layout.right"),
        ("top", "layout.top"),
        ("bottom", "layout.bottom"),
    ] {
        out.push((p, vec![a], lengths("Length", &auto)));
    }
    for (p, a) in [
        ("width", "layout.width"),
        ("height", "layout.height"),
        ("min-width", "layout.min_width"),
        ("min-height", "layout.min_height"),
        ("max-width", "layout.max_width"),
        ("max-height", "layout.max_height"),
        ("flex-basis", "layout.flex_basis"),
    ] {
        out.push((p, vec![a], lengths("Length", &size)));
    }
    for (p, a) in [
        ("padding-top", "layout.padding.top"),
        ("padding-right", "layout.padding.right"),
        ("padding-bottom", "layout.padding.bottom"),
        ("padding-left", "layout.padding.left"),
        ("row-gap", "layout.gap.row"),
        ("column-gap", "layout.gap.column"),
    ] {
        out.push((p, vec![a], lengths("Length", &pad)));
    }
    for (p, a) in [
        ("border-top-left-radius", "radius.0"),
        ("border-top-right-radius", "radius.1"),
        ("border-bottom-right-radius", "radius.2"),
        ("border-bottom-left-radius", "radius.3"),
    ] {
        out.push((p, vec![a], lengths("Number", &pad)));
    }
    for (p, a) in [
        ("border-top-color", "border.top.color"),
        ("border-right-color", "border.right.color"),
        ("border-bottom-color", "border.bottom.color"),
        ("border-left-color", "border.left.color"),
        ("background-color", "bg0.color"),
        ("color", "color"),
    ] {
        out.push((p, vec![a], colors()));
    }
    for (p, a) in [
        ("align-items", "layout.align_items"),
        ("align-self", "layout.align_self"),
        ("justify-items", "layout.justify_items"),
        ("justify-self", "layout.justify_self"),
    ] {
        out.push((p, vec![a], optional(&items)));
    }
    for (p, a) in [
        ("align-content", "layout.align_content"),
        ("justify-content", "layout.justify_content"),
    ] {
        out.push((p, vec![a], optional(&content)));
    }
    for (p, a) in [("overflow-x", "layout.overflow.x"), ("overflow-y", "layout.overflow.y")] {
        out.push((p, vec![a], words(&overflow)));
    }
    for (p, a) in [("flex-grow", "layout.flex_grow"), ("flex-shrink", "layout.flex_shrink")] {
        out.push((p, vec![a], words(&[("2", "2.0"), ("0.5", "0.5"), ("0", "0.0"), ("1", "1.0")])));
    }
    out.push(("opacity", vec!["self_opacity", "opacity"], words(&[("0.5", "0.5"), ("0", "0.0"), ("1", "1.0"), ("25%", "0.25")])));
    out.push(("background-image", vec!["bg0.image"], words(&[("url(\"a.png\")", "Some(\"a.png\")"), ("none", "None"), ("url(\"b c\")", "Some(\"b c\")")])));
    out.push(("font-size", vec!["font.size"], lengths("", &[("150%", "24.0"), ("50%", "8.0")])));
    out.push(("font-weight", vec!["font.weight"], words(&[("normal", "400"), ("bold", "700"), ("100", "100"), ("1000", "1000")])));
    out.push(("font-family", vec!["font.family"], words(&[("\"Foo\"", "\"Foo\""), ("\"Bar Baz\"", "\"Bar Baz\"")])));
    out.push(("font-style", vec!["font.style"], words(&[("normal", "\"normal\""), ("italic", "\"italic\""), ("oblique", "\"oblique\"")])));
    out.push(("text-align", vec!["font.align"], same(&["start", "end", "left", "right", "center", "justify", "justify-all", "match-parent"])));
    out.push(("pointer-events", vec!["pointer_events"], same(&["auto", "none"])));
    out.push(("cursor", vec!["pointer"], same(&["auto", "default", "pointer", "context-menu", "help", "progress", "wait", "text", "not-allowed"])));
    out.push(("visibility", vec!["visible"], words(&[("visible", "true"), ("hidden", "false")])));
    out.push(("box-sizing", vec!["layout.box_sizing"], same(&["border-box", "content-box"])));
    out.push(("display", vec!["layout.display"], words(&[("flow", "Block"), ("block", "Block"), ("flex", "Flex"), ("grid", "Grid")])));
    out.push(("position", vec!["layout.position"], same(&["relative", "absolute"])));
    out.push(("flex-direction", vec!["layout.flex_direction"], same(&["row", "row-reverse", "column", "column-reverse"])));
    out.push(("flex-wrap", vec!["layout.flex_wrap"], words(&[("wrap", "Wrap"), ("nowrap", "NoWrap"), ("wrap-reverse", "WrapReverse")])));
    out
}

const SIDES: [&str; 4] = ["top", "right", "bottom", "left"];

fn quad(prefix: &str, suffix: &str) -> Vec<&'static str> {
    SIDES
        .iter()
        .map(|s| &*Box::leak(format!("{prefix}{s}{suffix}").into_boxed_str()))
        .collect()
}

fn width(out: &mut Aspects, side: usize, px: f32) {
    out.push((quad("border.", ".width")[side], format!("{px:?}")));
    out.push((quad("layout.border.", "")[side], format!("Length({px:?})")));
}

fn shorthands() -> Vec<Decl> {
    let mut out = vec![];
    let mut add = |property: &'static str, value: String, sets: Aspects| {
        out.push(Decl {
            property,
            css: format!("{property}: {value};"),
            sets,
        })
    };
    // which of the given values goes to which side
    let assign: [&[usize; 4]; 4] = [&[0, 0, 0, 0], &[0, 1, 0, 1], &[0, 1, 2, 1], &[0, 1, 2, 3]];
    let sizes = [("4px", "Length(4.0)"), ("0", "Length(0.0)"), ("25%", "Percent(0.25)"), ("1em", "Length(16.0)")];
    let radii = [("4px", "Number(4.0)"), ("0", "Number(0.0)"), ("25%", "Percent(0.25)"), ("1em", "Number(16.0)")];
    let widths = [("4px", 4.0f32), ("0", 0.0), ("1em", 16.0), ("2px", 2.0)];
    let colors = [
        ("#010203", "[1, 2, 3, 255]"),
        ("red", "[255, 0, 0, 255]"),
        ("rgb(3, 4, 5)", "[3, 4, 5, 255]"),
        ("transparent", "[0, 0, 0, 0]"),
    ];
    for n in 1..=4usize {
        for shift in 0..4usize {
            let at = |side: usize| (assign[n - 1][side] + shift) % 4;
            let text = |v: &dyn Fn(usize) -> &'static str| {
                (0..n).map(|i| v((i + shift) % 4)).collect::<Vec<_>>().join(" ")
            };
            let four = |names: Vec<&'static str>, values: &[(&'static str, &'static str); 4]| -> Aspects {
                (0..4).map(|s| (names[s], values[at(s)].1.to_string())).collect()
            };
            add("margin", text(&|i| sizes[i].0), four(quad("layout.margin.", ""), &sizes));
            add("padding", text(&|i| sizes[i].0), four(quad("layout.padding.", ""), &sizes));
            add("inset", text(&|i| sizes[i].0), four(quad("layout.", ""), &sizes));
            add("border-color", text(&|i| colors[i].0), four(quad("border.", ".color"), &colors));
            add(
                "border-radius",
                text(&|i| radii[i].0),
                four(vec!["radius.0", "radius.1", "radius.2", "radius.3"], &radii),
            );
            let mut sets = vec![];
            for s in 0..4 {
                width(&mut sets, s, widths[at(s)].1);
            }
            add("border-width", text(&|i| widths[i].0), sets);
        }
    }
    for (a, b) in [(0, 1), (2, 3), (3, 0)] {
        add(
            "gap",
            format!("{} {}", sizes[a].0, sizes[b].0),
            vec![("layout.gap.row", sizes[a].1.to_string()), ("layout.gap.column", sizes[b].1.to_string())],
        );
        add(
            "gap",
            sizes[a].0.to_string(),
            vec![("layout.gap.row", sizes[a].1.to_string()), ("layout.gap.column", sizes[a].1.to_string())],
        );
    }
    for (x, y, a, b) in [("hidden", "visible", "Hidden", "Visible"), ("clip", "scroll", "Clip", "Scroll")] {
        add(
            "overflow",
            format!("{x} {y}"),
            vec![("layout.overflow.x", a.to_string()), ("layout.overflow.y", b.to_string())],
        );
        add(
            "overflow",
            x.to_string(),
            vec![("layout.overflow.x", a.to_string()), ("layout.overflow.y", a.to_string())],
        );
    }
    for (w, px, c, color) in [
        ("3px", 3.0, "#010203", "[1, 2, 3, 255]"),
        ("0", 0.0, "red", "[255, 0, 0, 255]"),
        ("1em", 16.0, "rgba(1, 2, 3, 0.5)", "[1, 2, 3, 127]"),
    ] {
        let mut sets = vec![];
        for s in 0..4 {
            width(&mut sets, s, px);
            sets.push((quad("border.", ".color")[s], color.to_string()));
            let side: &'static str = ["border-top", "border-right", "border-bottom", "border-left"][s];
            let mut one = vec![(quad("border.", ".color")[s], color.to_string())];
            width(&mut one, s, px);
            add(side, format!("{w} solid {c}"), one);
        }
        add("border", format!("{w} solid {c}"), sets);
    }
    let mut sets = vec![];
    for s in 0..4 {
        width(&mut sets, s, 0.0);
        sets.push((quad("border.", ".color")[s], ANY.to_string()));
    }
    add("border", "none".to_string(), sets);
    for (s, side) in ["border-top-width", "border-right-width", "border-bottom-width", "border-left-width"]
        .into_iter()
        .enumerate()
    {
        for (w, px) in [("1.5px", 1.5), ("0", 0.0), ("1em", 16.0), ("2vw", 16.0), (".5rem", 8.0)] {
            let mut sets = vec![];
            width(&mut sets, s, px);
            add(side, w.to_string(), sets);
        }
    }
    for (css, color) in colors {
        add(
            "background",
            css.to_string(),
            vec![("bg0.image", "None".to_string()), ("bg0.color", color.to_string())],
        );
    }
    for (x, y, src) in [("3px", "4px", "[-3.0, -4.0]"), ("-2px", "0", "[2.0, 0.0]"), ("0", "1em", "[0.0, -16.0]")] {
        add("background-position", format!("{x} {y}"), vec![("bg0.src", src.to_string())]);
    }
    // lists of values for layers
    add(
        "background-color",
        "red, #010203".to_string(),
        vec![("bg0.color", "[255, 0, 0, 255]".to_string()), ("bg1.color", "[1, 2, 3, 255]".to_string())],
    );
    add(
        "background-image",
        "url(\"a\"), url(\"b\")".to_string(),
        vec![("bg0.image", "Some(\"a\")".to_string()), ("bg1.image", "Some(\"b\")".to_string())],
    );
    add(
        "background-position",
        "1px 2px, 3px 4px".to_string(),
        vec![("bg0.src", "[-1.0, -2.0]".to_string()), ("bg1.src", "[-3.0, -4.0]".to_string())],
    );
    for n in [3, 4] {
        let join = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(", ");
        add(
            "background-color",
            join(&|i| format!("#0{i}0203")),
            (0..n).map(|i| (layer(i, "color"), format!("[{i}, 2, 3, 255]"))).collect(),
        );
        add(
            "background-image",
            join(&|i| format!("url(\"{i}\")")),
            (0..n).map(|i| (layer(i, "image"), format!("Some(\"{i}\")"))).collect(),
        );
        add(
            "background-position",
            join(&|i| format!("{}px 7px", i + 1)),
            (0..n).map(|i| (layer(i, "src"), format!("[-{}.0, -7.0]", i + 1))).collect(),
        );
    }
    add("outline", "none".to_string(), vec![]);
    out
}

/// All declarations of the table.
pub fn all() -> Vec<Decl> {
    let mut out = vec![];
    for (property, aspects, values) in longhands() {
        for (css, value) in values {
            out.push(Decl {
                property,
                css: format!("{property}: {css};"),
                sets: aspects.iter().map(|a| (*a, value.clone())).collect(),
            });
        }
    }
    out.extend(shorthands());
    // a list of layers is replaced as a whole
    for d in &mut out {
        let parts: &[&str] = match d.property {
            "background-color" => &["color"],
            "background-image" => &["image"],
            "background-position" => &["src"],
            "background" => &["color", "image"],
            _ => &[],
        };
        for part in parts {
            for i in 1..4 {
                let one = layer(i, part);
                if !d.sets.iter().any(|s| s.0 == one) {
                    d.sets.push((one, nothing(part).to_string()));
                }
            }
        }
    }
    out
}

fn nothing(part: &str) -> &'static str {
    match part {
        "color" => "[0, 0, 0, 0]",
        "src" => "[0.0, 0.0]",
        _ => "None",
    }
}

/// The aspect of a background layer.
fn layer(i: usize, part: &str) -> &'static str {
    const LAYERS: [[&str; 3]; 4] = [
        ["bg0.image", "bg0.color", "bg0.src"],
        ["bg1.image", "bg1.color", "bg1.src"],
        ["bg2.image", "bg2.color", "bg2.src"],
        ["bg3.image", "bg3.color", "bg3.src"],
    ];
    LAYERS[i][["image", "color", "src"].iter().position(|p| *p == part).expect("part")]
}

/// At most `n` declarations per property, spread over its values.
pub fn spread(n: usize) -> Vec<Decl> {
    let all = all();
    let mut out = vec![];
    let mut i = 0;
    while i < all.len() {
        let j = (i..all.len()).find(|j| all[*j].property != all[i].property).unwrap_or(all.len());
        let len = j - i;
        for k in 0..n.min(len) {
            // not the first ones, they are often the initial values
            out.push(all[i + (k * len / n.min(len) + len / (2 * n.min(len))).min(len - 1)].clone());
        }
        i = j;
    }
    out
}

/// The aspects of an element without any declaration.
pub fn initial() -> Result<Aspects, String> {
    let mut v = view("<html><body><div></div></body></html>", "")?;
    Step::new(serde_json::json!({})).run(&mut v)?;
    let mut a = vec![];
    style_aspects(&v.body().children()[0], &mut a);
    Ok(a)
}

pub fn set(aspects: &mut Aspects, d: &Decl) {
    for (name, value) in &d.sets {
        aspects.iter_mut().find(|a| a.0 == *name).expect("aspect").1 = value.clone();
    }
}

pub fn compare(seen: &Aspects, expected: &Aspects) -> Result<(), String> {
    for ((name, a), (_, b)) in seen.iter().zip(expected) {
        if a != b && b != ANY {
            return Err(format!("{name} is {a}, expected {b}"));
        }
    }
    Ok(())
}
