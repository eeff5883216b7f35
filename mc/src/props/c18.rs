use super::ui::*;
use super::*;
use bumaga::{FontFace, Fonts, Fragment, View};
use taffy::{AvailableSpace, Layout, NodeId, Size, TaffyTree};

type Plain = TaffyTree<Option<(String, FontFace)>>;

/// The shown tree again, as a new layout tree with the styles of the elements.
fn rebuild(f: &Fragment, tree: &mut Plain) -> Result<NodeId, String> {
    let style = f.tree.style(f.node).map_err(|e| format!("{e:?}"))?.clone();
    let text = text_of(f).map(|t| (t, f.font.clone()));
    let node = tree.new_leaf_with_context(style, text).unwrap();
    for c in f.children() {
        let c = rebuild(&c, tree)?;
        tree.add_child(node, c).unwrap();
    }
    Ok(node)
}

fn lay_out(body: &Fragment) -> Result<(Plain, NodeId), String> {
    let mut tree = Plain::new();
    let root = rebuild(body, &mut tree)?;
    tree.compute_layout_with_measure(root, Size::MAX_CONTENT, |size, space, _, text, _| {
        if let Size { width: Some(width), height: Some(height) } = size {
            return Size { width, height };
        }
        let Some(Some((text, font))) = text else {
            return Size::ZERO;
        };
        let max = size.width.or(match space.width {
            AvailableSpace::MinContent => Some(0.0),
            AvailableSpace::MaxContent => None,
            AvailableSpace::Definite(width) => Some(width),
        });
        let [width, height] = HalfFonts.measure(text, font, max);
        Size { width, height }
    })
    .unwrap();
    Ok((tree, root))
}

use taffy::prelude::TaffyMaxContent;

fn near(a: [f32; 2], b: [f32; 2]) -> bool {
    (a[0] - b[0]).abs() < 0.01 && (a[1] - b[1]).abs() < 0.01
}

struct Judge<'a> {
    tree: &'a Plain,
    out: String,
}

impl Judge<'_> {
    fn element(&mut self, f: &Fragment, node: NodeId, parent: [f32; 2], clip: Option<Layout>, path: &str) -> Result<(), String> {
        let l: &Layout = self.tree.layout(node).unwrap();
        let at = [parent[0] + l.location.x, parent[1] + l.location.y];
        let size = [l.size.width, l.size.height];
        let content = [l.content_size.width, l.content_size.height];
        self.out.push_str(&format!("{:?} {:?} {:?} {}|", f.position, f.size, f.content_size, clip_text(&clip)));
        for (name, is, expected) in [
            ("position", f.position, at),
            ("size", f.size, size),
            ("content size", f.content_size, content),
        ] {
            if !near(is, expected) {
                return Err(format!("{path}: {name} is {is:?}, expected {expected:?}"));
            }
        }
        match (&f.clipping, &clip) {
            (None, None) => {}
            (Some(a), Some(b))
                if near([a.location.x, a.location.y], [b.location.x, b.location.y])
                    && near([a.size.width, a.size.height], [b.size.width, b.size.height]) => {}
            (a, b) => return Err(format!("{path}: clipping is {}, expected {}", clip_text(a), clip_text(b))),
        }
        let over = [content[0] - size[0], content[1] - size[1]];
        let overflows = over[0] > 0.0 || over[1] > 0.0;
        if let Some(s) = &f.scrolling {
            if !overflows {
                return Err(format!("{path}: scrolls without overflow"));
            }
            if !near([s.scroll_x, s.scroll_y], [over[0].max(0.0), over[1].max(0.0)]) || [s.x, s.y] != [0.0, 0.0] {
                return Err(format!("{path}: scrolling is {}, overflow {over:?}", scroll(f)));
            }
        }
        let mut own = *l;
        own.location.x = at[0];
        own.location.y = at[1];
        let clip = if overflows { Some(own) } else { clip };
        let kids = f.children();
        let nodes = self.tree.children(node).unwrap();
        for (i, (c, n)) in kids.iter().zip(nodes).enumerate() {
            self.element(c, n, at, clip, &format!("{path}/{i}{}", c.tag))?;
        }
        Ok(())
    }
}

fn clip_text(l: &Option<Layout>) -> String {
    match l {
        None => "none".to_string(),
        Some(l) => format!("{:?} {:?}", [l.location.x, l.location.y], [l.size.width, l.size.height]),
    }
}

pub fn judge(body: &Fragment) -> Result<String, String> {
    let (tree, root) = lay_out(body)?;
    let mut judge = Judge { tree: &tree, out: String::new() };
    judge.element(body, root, [0.0, 0.0], None, "body")?;
    Ok(judge.out)
}

/// The histories of the checks about styles, judged after every update.
fn histories(w: super::c14::World, depth: usize) -> Family {
    let n = w.moves.len() as u64;
    Family::new(w.name, n.pow(depth as u32), move |index, ctx| {
        ctx.begin(&format!("{}\n{}", w.html, w.css));
        let mut view = view(w.html, w.css)?;
        let mut value = w.first.clone();
        let mut viewport = [800.0, 600.0];
        Step::new(value.clone()).run(&mut view)?;
        judge(&view.body())?;
        for i in digits(index, n, depth) {
            let m = &w.moves[i];
            if let Some(change) = &m.act.value {
                merge(&mut value, change);
            }
            viewport = m.viewport.unwrap_or(viewport);
            let step = Step::new(value.clone()).viewport(viewport[0], viewport[1]).events(m.act.events.clone());
            step.run(&mut view)?;
            let result = judge(&view.body());
            ctx.step(&step.label(), result.as_deref().unwrap_or(""));
            result?;
        }
        Ok(())
    })
}

/// One view goes through every pair (triple) of moves.
fn marathon(w: super::c14::World, k: usize) -> Family {
    let order = long::tour(w.moves.len(), k);
    Family::new(&format!("marathon: {}", w.name), 1, move |_, ctx| {
        ctx.begin(&format!("{}\n{}", w.html, w.css));
        let mut view = view(w.html, w.css)?;
        let mut value = w.first.clone();
        let mut viewport = [800.0, 600.0];
        for (n, i) in order.iter().enumerate() {
            let m = &w.moves[*i];
            if let Some(change) = &m.act.value {
                merge(&mut value, change);
            }
            viewport = m.viewport.unwrap_or(viewport);
            let step = Step::new(value.clone()).viewport(viewport[0], viewport[1]).events(m.act.events.clone());
            step.run(&mut view)?;
            let result = judge(&view.body());
            ctx.step(&step.label(), result.as_deref().unwrap_or(""));
            result.map_err(|e| format!("update {n}: {e}"))?;
        }
        Ok(())
    })
}

/// Many boxes in each other and beside each other; two of them change.
fn deep() -> Family {
    const N: usize = 18;
    const KINDS: [&str; 5] = ["o", "p", "s", "b", "h"];
    let css = ".o { width: 12px; height: 9px; } .p { position: absolute; left: -5px; top: 7px; } .s { width: 150%; min-height: 40px; }\
               .b { border-width: 2px; padding: 1px 3px; overflow: hidden; } .h { display: none; } p { height: 3px; }";
    let mut html = "<p>in</p>".to_string();
    for i in (0..N).rev() {
        html = format!("<p>x</p><div @class=\"{{c{i}}}\">{html}<p></p></div>");
    }
    let html = format!("<html><body>{html}<section>{}</section></body></html>", (0..40).map(|i| format!("<p @class=\"{{c{}}}\">{i}</p>", i % N)).collect::<String>());
    let n = (N * KINDS.len()) as u64;
    Family::new("deep", n * n, move |index, ctx| {
        let m = mixed(index, &[N as u64, KINDS.len() as u64, N as u64, KINDS.len() as u64]);
        ctx.begin(&format!("{html}\n{css}"));
        let mut view = view(&html, css)?;
        let set = |list: &[(usize, usize)]| -> Value {
            let mut v = json!({});
            for (i, k) in list {
                v[format!("c{i}")] = json!(KINDS[*k]);
            }
            v
        };
        let (a, b) = ((m[0], m[1]), (m[2], m[3]));
        for value in [set(&[a]), set(&[a, b]), set(&[b])] {
            let step = Step::new(value).viewport(200.0, 100.0);
            step.run(&mut view)?;
            let result = judge(&view.body());
            ctx.step(&step.label(), result.as_deref().unwrap_or(""));
            result?;
        }
        Ok(())
    })
}

/// Nested boxes at given places: the geometry is known without a layout.
fn boxes(thorough: bool) -> Family {
    let lefts = [0.0f32, -6.0, 9.0];
    let sizes = [[20.0f32, 20.0], [8.0, 30.0], [30.0, 8.0]];
    let overflow = ["visible", "hidden"];
    let html = "<html><body><a @style=\"{a}\"><b @style=\"{b}\" ?=\"{x}\"><c @style=\"{c}\"></c></b><d @style=\"{d}\" ?=\"{y}\"></d></a></body></html>";
    let css = "a, b, c, d { position: absolute; top: 1px; } body { width: 60px; height: 60px; }";
    let one = 3 * 3;
    let count: u64 = if thorough { one * one * one * one * 2 * 4 } else { one * one * one * 2 * 4 };
    let mut bases = vec![2, 2, 2];
    bases.extend([3, 3].repeat(if thorough { 4 } else { 3 }));
    Family::new("boxes", count, move |index, ctx| {
        ctx.begin(&format!("{html}\n{css}"));
        let m = mixed(index, &bases);
        let style = |k: usize| {
            let (l, s) = match m.get(3 + 2 * k) {
                Some(l) => (*l, m[4 + 2 * k]),
                None => (2, 0),
            };
            (lefts[l], sizes[s])
        };
        let css_of = |k: usize| {
            let (l, [w, h]) = style(k);
            format!("left: {l}px; width: {w}px; height: {h}px; overflow: {};", overflow[m[0]])
        };
        let mut view = view(html, css)?;
        for k in 0..3 {
            // everything, without some, everything but with c and d swapped
            let (x, y) = if k == 1 { (m[1] == 1, m[2] == 1) } else { (true, true) };
            let order = if k == 2 { [0, 1, 3, 2] } else { [0, 1, 2, 3] };
            let step = Step::new(json!({
                "a": css_of(order[0]), "b": css_of(order[1]), "c": css_of(order[2]), "d": css_of(order[3]), "x": x, "y": y
            }));
            step.run(&mut view)?;
            let body = view.body();
            let observed = judge(&body)?;
            ctx.step(&step.label(), &observed);
            let mut expected = vec![("a", [0, 9])];
            if x {
                expected.extend([("b", [1, 0]), ("c", [2, 1])]);
            }
            if y {
                expected.push(("d", [3, 0]));
            }
            for (tag, [own, parent]) in expected {
                let (l, size) = style(order[own]);
                let mut at = [l, 1.0];
                let mut p = parent;
                while p != 9 {
                    at = [at[0] + style(order[p]).0, at[1] + 1.0];
                    p = if p == 0 { 9 } else { p - 1 };
                }
                let f = find(&body, tag).ok_or(format!("{tag} is not shown"))?;
                if f.0 != at || f.1 != size {
                    return Err(format!("{tag} is at {:?} with size {:?}, expected {at:?} {size:?}", f.0, f.1));
                }
            }
        }
        Ok(())
    })
}

fn find(f: &Fragment, tag: &str) -> Option<([f32; 2], [f32; 2])> {
    if f.tag == tag && f.text.is_none() {
        return Some((f.position, f.size));
    }
    f.children().iter().find_map(|c| find(c, tag))
}

/// Changes of the display of a parent.
fn switch(thorough: bool) -> Family {
    let displays = ["", "display: block;", "display: flex;", "display: grid;"];
    let depth = if thorough { 5 } else { 4 };
    let html = "<html><body><section @style=\"{a}\">te<div>xt<i>a</i></div><p>long text</p></section><u>z</u></body></html>";
    let css = "body { width: 100px; } section { width: 60px; height: 30px; } div { min-width: 10px; }";
    Family::new("switch", 4u64.pow(depth as u32), move |index, ctx| {
        ctx.begin(&format!("{html}\n{css}"));
        let mut view = view(html, css)?;
        let mut previous = None;
        for i in digits(index, 4, depth) {
            let step = Step::new(json!({"a": displays[i]}));
            step.run(&mut view)?;
            let result = judge(&view.body());
            ctx.step(&step.label(), result.as_deref().unwrap_or(""));
            result.map_err(|e| match previous {
                Some(p) => format!("display of a shown parent changed from \"{}\" to \"{}\": {e}", displays[p], displays[i]),
                None => format!("display \"{}\": {e}", displays[i]),
            })?;
            previous = Some(i);
        }
        Ok(())
    })
}

/// Layout of every declaration on a parent and on its child at once.
/// A parent is a grid from the start and keeps its children, changes to a grid are in `switch`.
fn declared(thorough: bool) -> Family {
    let list: Vec<_> = super::decls::spread(if thorough { 4 } else { 2 })
        .into_iter()
        .filter(|d| d.sets.iter().any(|s| s.0.starts_with("layout.") || s.0.starts_with("font.")))
        .collect();
    let n = list.len() as u64;
    let html = "<html><body><section @style=\"{a}\">te<div @style=\"{b}\">xt<i>a</i></div><p ?=\"{x}\">long text</p></section><u>z</u></body></html>";
    let css = "body { width: 100px; } section { width: 60px; height: 30px; } div { min-width: 10px; }";
    Family::new("declared", n * n, move |index, ctx| {
        ctx.begin(&format!("{html}\n{css}"));
        let (a, b) = (&list[(index % n) as usize].css, &list[(index / n) as usize].css);
        let mut view = view(html, css)?;
        let grid = a.contains("display: grid");
        let first = if grid { a } else { "" };
        for (a, b, x) in [(first, b.as_str(), true), (a, b, true), (a, b, grid), (a, "", true)] {
            let step = Step::new(json!({"a": a, "b": b, "x": x}));
            step.run(&mut view)?;
            let result = judge(&view.body());
            ctx.step(&step.label(), result.as_deref().unwrap_or(""));
            result.map_err(|e| format!("parent {a} child {b} x {x}: {e}"))?;
        }
        Ok(())
    })
}

/// Texts are measured by the fonts the application chose last, before and while it is used.
fn measured(thorough: bool) -> Family {
    let texts = ["", "a", "long text", "many words for two lines", "ää"];
    let styles = ["", "font-size: 9px;", "font-weight: bold;", "font-family: \"Wide\"; font-style: italic;"];
    let html = "<html><body><section @style=\"{s}\">{a}<div>x{b}</div></section><p ?=\"{b}\">{b}</p></body></html>";
    let css = "body { width: 90px; } section { display: flex; }";
    let (t, s) = (texts.len() as u64, styles.len() as u64);
    let one = t * t * s;
    let depth = if thorough { 2 } else { 1 };
    Family::new("measured", 3 * one.pow(depth) * 3, move |index, ctx| {
        ctx.begin(&format!("{html}\n{css}"));
        let build = |first: bool| match first {
            true => View::from_html(html, css, "", HalfFonts, Box::new(Same)),
            false => View::from_html(html, css, "", Fixed, Box::new(Same)),
        };
        let [how, k, history] = mixed(index, &[3, 3, one.pow(depth)])[..] else { unreachable!() };
        let mut view = build(how == 0).map_err(|e| format!("{e:?}"))?;
        // chosen with the view, later, or twice
        match how {
            1 => view = view.fonts(HalfFonts),
            2 => view = view.fonts(Fixed).fonts(HalfFonts),
            _ => {}
        }
        for (i, d) in digits(history as u64, one, depth as usize).into_iter().enumerate() {
            let m = mixed(d as u64, &[t, t, s]);
            let b = [json!(texts[m[1]]), json!(null), json!(7)][if i == 0 { k } else { 0 }].clone();
            let step = Step::new(json!({"a": texts[m[0]], "b": b, "s": styles[m[2]]}));
            step.run(&mut view)?;
            let result = judge(&view.body());
            ctx.step(&step.label(), result.as_deref().unwrap_or(""));
            result.map_err(|e| format!("fonts chosen {how}: {e}"))?;
        }
        Ok(())
    })
}

struct Fixed;
impl Fonts for Fixed {
    fn measure(&self, _: &str, _: &FontFace, _: Option<f32>) -> [f32; 2] {
        [1.0, 3.0]
    }
}

pub fn plan(thorough: bool) -> Plan {
    let mut families = vec![boxes(thorough), switch(thorough), declared(thorough), measured(thorough)];
    families.push(deep());
    for w in super::c14::worlds() {
        families.push(marathon(w, if thorough { 4 } else { 3 }));
    }
    for w in super::c14::worlds() {
        families.push(histories(w, if thorough { 4 } else { 3 }));
    }
    (
        families,
        assumed(&["the layout library is trusted to lay out a new tree of the same styles and texts; it is run again from scratch"]),
    )
}
