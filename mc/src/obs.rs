//! Driving the real view and observing it through its public API.
use crate::template::{Node, PIPES};
use bumaga::*;
use serde_json::Value;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::time::Duration;

/// Text size used by all checks: about half a font size per byte, one line, wider for other
/// weights, styles and families.
pub struct HalfFonts;
fn factor(face: &FontFace) -> f32 {
    let mut f = 0.5;
    if face.weight != 400 {
        f += face.weight as f32 / 4096.0;
    }
    if face.style != "normal" {
        f += 0.125 * face.style.len() as f32;
    }
    if face.family != "system-ui" {
        f += 1.0 + 0.25 * face.family.len() as f32;
    }
    f
}
impl Fonts for HalfFonts {
    fn measure(&self, text: &str, face: &FontFace, max_width: Option<f32>) -> [f32; 2] {
        // letters differ in width, so that texts of one length do
        let eighths: u32 = text.bytes().map(|b| 8 + u32::from(b % 3)).sum();
        let width = eighths as f32 / 8.0 * face.size * factor(face);
        match max_width {
            // at least one character wide
            Some(max) if max < width => [max.max(face.size * 0.5).min(width), face.size * 2.0],
            _ => [width, face.size],
        }
    }
}

pub struct Same;
impl RendererTranslator for Same {
    fn translate(&self, span: String) -> String {
        span
    }
}

pub fn view(html: &str, css: &str) -> Result<View, String> {
    view_with(html, css, Box::new(Same))
}

pub fn view_with(html: &str, css: &str, tr: Box<dyn RendererTranslator>) -> Result<View, String> {
    let mut view = View::from_html(html, css, "", HalfFonts, tr)
        .map_err(|e| format!("view not created: {e:?}"))?;
    for (name, f) in PIPES {
        view = view.pipe(name, f);
    }
    Ok(view)
}

#[derive(Clone, Debug)]
pub struct Step {
    pub value: Value,
    pub events: Vec<InputEvent>,
    pub time: f32,
    pub viewport: [f32; 2],
}

impl Step {
    pub fn new(value: Value) -> Step {
        Step {
            value,
            events: vec![],
            time: 0.0,
            viewport: [800.0, 600.0],
        }
    }
    pub fn event(mut self, e: InputEvent) -> Step {
        self.events.push(e);
        self
    }
    pub fn events(mut self, e: Vec<InputEvent>) -> Step {
        self.events = e;
        self
    }
    pub fn time(mut self, t: f32) -> Step {
        self.time = t;
        self
    }
    pub fn viewport(mut self, w: f32, h: f32) -> Step {
        self.viewport = [w, h];
        self
    }
    pub fn run(&self, view: &mut View) -> Result<Output, String> {
        let input = Input::new()
            .time(Duration::from_secs_f32(self.time))
            .viewport(self.viewport)
            .events(self.events.clone());
        view.update(input, self.value.clone())
            .map_err(|e| format!("update failed: {e:?}"))
    }
    pub fn label(&self) -> String {
        let mut s = format!("value={}", self.value);
        if !self.events.is_empty() {
            let _ = write!(s, " events={:?}", self.events);
        }
        if self.time != 0.0 {
            let _ = write!(s, " time={}", self.time);
        }
        if self.viewport != [800.0, 600.0] {
            let _ = write!(s, " viewport={:?}", self.viewport);
        }
        s
    }
}

/// Compare the shown tree with the reference rendering; writes the shown tree to `out`.
pub fn compare_tree(seen: &Fragment, expected: &Node, out: &mut String) -> Result<(), String> {
    write_tree(seen, out);
    compare(seen, expected, "body")
}

pub fn seen_tree(seen: &Fragment) -> String {
    let mut s = String::new();
    write_tree(seen, &mut s);
    s
}

pub fn text_of(f: &Fragment) -> Option<String> {
    f.text.as_ref().map(|t| t.to_string())
}

pub fn write_tree(f: &Fragment, out: &mut String) {
    if let Some(text) = text_of(f) {
        let _ = write!(out, "{text:?}");
        return;
    }
    let _ = write!(out, "<{}", f.tag);
    let attrs: BTreeMap<&String, &String> = f.attrs.iter().collect();
    for (k, v) in attrs {
        let _ = write!(out, " {k}={v:?}");
    }
    out.push('>');
    for c in f.children() {
        write_tree(&c, out);
    }
    out.push_str("</>");
}

fn compare(f: &Fragment, n: &Node, path: &str) -> Result<(), String> {
    match (text_of(f), &n.text) {
        (Some(a), Some(b)) => {
            return if &a == b {
                Ok(())
            } else {
                Err(format!("{path}: text is {a:?}, expected {b:?}"))
            }
        }
        (None, None) => {}
        (a, b) => return Err(format!("{path}: text is {a:?}, expected {b:?}")),
    }
    if f.tag != n.tag {
        return Err(format!("{path}: tag is {:?}, expected {:?}", f.tag, n.tag));
    }
    if f.attrs.len() != n.attrs.len() || n.attrs.iter().any(|(k, v)| f.attrs.get(k) != Some(v)) {
        let seen: BTreeMap<_, _> = f.attrs.iter().collect();
        return Err(format!(
            "{path}: attributes are {seen:?}, expected {:?}",
            n.attrs
        ));
    }
    let kids = f.children();
    // the picture of an image is judged by the property about images
    if n.tag == "img" {
        return Ok(());
    }
    if kids.len() != n.kids.len() {
        let names = |f: &[Fragment]| -> Vec<String> { f.iter().map(seen_tree).collect() };
        return Err(format!(
            "{path}: {} children {:?}, expected {}: {:?}",
            kids.len(),
            names(&kids),
            n.kids.len(),
            n.kids.iter().map(brief).collect::<Vec<_>>()
        ));
    }
    for (i, (a, b)) in kids.iter().zip(&n.kids).enumerate() {
        compare(a, b, &format!("{path}/{i}{}", b.tag))?;
    }
    Ok(())
}

pub fn brief(n: &Node) -> String {
    match &n.text {
        Some(t) => format!("{t:?}"),
        None => {
            let mut s = format!("<{}", n.tag);
            for (k, v) in &n.attrs {
                let _ = write!(s, " {k}={v:?}");
            }
            s.push('>');
            for k in &n.kids {
                s.push_str(&brief(k));
            }
            s
        }
    }
}

/// Every computed aspect of an element's style, layout and box, as named texts.
pub fn aspects(f: &Fragment) -> Vec<(&'static str, String)> {
    let mut o: Vec<(&'static str, String)> = Vec::with_capacity(80);
    macro_rules! a {
        ($n:expr, $v:expr) => {
            o.push(($n, format!("{:?}", $v)))
        };
    }
    style_aspects(f, &mut o);
    a!("position", f.position);
    a!("size", f.size);
    a!("content_size", f.content_size);
    o.push(("clipping", clip(f)));
    o.push(("scrolling", scroll(f)));
    o
}

pub fn clip(f: &Fragment) -> String {
    match &f.clipping {
        None => "none".to_string(),
        Some(l) => format!(
            "{:?} {:?}",
            [l.location.x, l.location.y],
            [l.size.width, l.size.height]
        ),
    }
}

pub fn scroll(f: &Fragment) -> String {
    match &f.scrolling {
        None => "none".to_string(),
        Some(s) => format!("{:?} of {:?}", [s.x, s.y], [s.scroll_x, s.scroll_y]),
    }
}

/// The style aspects only (no layout results).
pub fn style_aspects(f: &Fragment, o: &mut Vec<(&'static str, String)>) {
    macro_rules! a {
        ($n:expr, $v:expr) => {
            o.push(($n, format!("{:?}", $v)))
        };
    }
    let backgrounds: Vec<_> = f
        .backgrounds
        .iter()
        .map(|b| (b.image.clone(), b.color, b.src.map(|x| x + 0.0)))
        .collect();
    let bg = |i: usize| {
        backgrounds
            .get(i)
            .cloned()
            .unwrap_or((None, [0; 4], [0.0; 2]))
    };
    a!("bg0.image", bg(0).0);
    a!("bg0.color", bg(0).1);
    a!("bg0.src", bg(0).2);
    a!("bg1.image", bg(1).0);
    a!("bg1.color", bg(1).1);
    a!("bg1.src", bg(1).2);
    a!("bg2.image", bg(2).0);
    a!("bg2.color", bg(2).1);
    a!("bg2.src", bg(2).2);
    a!("bg3.image", bg(3).0);
    a!("bg3.color", bg(3).1);
    a!("bg3.src", bg(3).2);
    a!("border.top.color", f.borders.top.color);
    a!("border.right.color", f.borders.right.color);
    a!("border.bottom.color", f.borders.bottom.color);
    a!("border.left.color", f.borders.left.color);
    a!("border.top.width", f.borders.top.width);
    a!("border.right.width", f.borders.right.width);
    a!("border.bottom.width", f.borders.bottom.width);
    a!("border.left.width", f.borders.left.width);
    a!("radius.0", f.borders.radius[0]);
    a!("radius.1", f.borders.radius[1]);
    a!("radius.2", f.borders.radius[2]);
    a!("radius.3", f.borders.radius[3]);
    a!("color", f.color);
    a!("font.family", f.font.family);
    a!("font.size", f.font.size);
    a!("font.style", f.font.style);
    a!("font.weight", f.font.weight);
    a!("font.align", f.font.align);
    a!("self_opacity", f.self_opacity);
    a!("opacity", f.opacity);
    a!("pointer_events", f.pointer_events);
    a!("pointer", f.pointer);
    a!("visible", f.visible);
    if f.text.is_some() {
        return;
    }
    if let Ok(s) = f.tree.style(f.node) {
        a!("layout.display", s.display);
        a!("layout.box_sizing", s.box_sizing);
        a!("layout.overflow.x", s.overflow.x);
        a!("layout.overflow.y", s.overflow.y);
        a!("layout.position", s.position);
        a!("layout.left", s.inset.left);
        a!("layout.right", s.inset.right);
        a!("layout.top", s.inset.top);
        a!("layout.bottom", s.inset.bottom);
        a!("layout.width", s.size.width);
        a!("layout.height", s.size.height);
        a!("layout.min_width", s.min_size.width);
        a!("layout.min_height", s.min_size.height);
        a!("layout.max_width", s.max_size.width);
        a!("layout.max_height", s.max_size.height);
        a!("layout.margin.top", s.margin.top);
        a!("layout.margin.right", s.margin.right);
        a!("layout.margin.bottom", s.margin.bottom);
        a!("layout.margin.left", s.margin.left);
        a!("layout.padding.top", s.padding.top);
        a!("layout.padding.right", s.padding.right);
        a!("layout.padding.bottom", s.padding.bottom);
        a!("layout.padding.left", s.padding.left);
        a!("layout.border.top", s.border.top);
        a!("layout.border.right", s.border.right);
        a!("layout.border.bottom", s.border.bottom);
        a!("layout.border.left", s.border.left);
        a!("layout.align_items", s.align_items);
        a!("layout.align_self", s.align_self);
        a!("layout.align_content", s.align_content);
        a!("layout.justify_items", s.justify_items);
        a!("layout.justify_self", s.justify_self);
        a!("layout.justify_content", s.justify_content);
        a!("layout.gap.row", s.gap.height);
        a!("layout.gap.column", s.gap.width);
        a!("layout.flex_direction", s.flex_direction);
        a!("layout.flex_wrap", s.flex_wrap);
        a!("layout.flex_basis", s.flex_basis);
        a!("layout.flex_grow", s.flex_grow);
        a!("layout.flex_shrink", s.flex_shrink);
        a!("layout.aspect_ratio", s.aspect_ratio);
    }
}

/// Full observation of the tree including styles and layout, as text.
pub fn full(f: &Fragment, out: &mut String) {
    let _ = write!(out, "<{}", f.tag);
    if let Some(t) = text_of(f) {
        let _ = write!(out, "{t:?}");
    }
    let attrs: BTreeMap<&String, &String> = f.attrs.iter().collect();
    for (k, v) in attrs {
        let _ = write!(out, " {k}={v:?}");
    }
    for (k, v) in aspects(f) {
        let _ = write!(out, ";{k}={v}");
    }
    out.push('>');
    for c in f.children() {
        full(&c, out);
    }
    out.push_str("</>");
}

/// Compare two observations of shown trees aspect by aspect (different views).
pub fn same_full(a: &Fragment, b: &Fragment, path: &str) -> Result<(), String> {
    same(a, b, path, true)
}

/// The same without the attributes.
pub fn same_look(a: &Fragment, b: &Fragment, path: &str) -> Result<(), String> {
    same(a, b, path, false)
}

fn same(a: &Fragment, b: &Fragment, path: &str, attributes: bool) -> Result<(), String> {
    if a.tag != b.tag || text_of(a) != text_of(b) {
        return Err(format!(
            "{path}: {:?} {:?} against {:?} {:?}",
            a.tag,
            text_of(a),
            b.tag,
            text_of(b)
        ));
    }
    if attributes && a.attrs != b.attrs {
        return Err(format!(
            "{path}: attributes {:?} against {:?}",
            a.attrs, b.attrs
        ));
    }
    let (x, y) = (aspects(a), aspects(b));
    for ((k, v), (k2, w)) in x.iter().zip(&y) {
        if k == k2 && v != w {
            return Err(format!("{path}: {k} is {v}, in the other view {w}"));
        }
    }
    let (ka, kb) = (a.children(), b.children());
    if ka.len() != kb.len() {
        return Err(format!(
            "{path}: {} children, in the other view {}",
            ka.len(),
            kb.len()
        ));
    }
    for (i, (x, y)) in ka.iter().zip(&kb).enumerate() {
        same(x, y, &format!("{path}/{i}{}", x.tag), attributes)?;
    }
    Ok(())
}

pub fn output_text(o: &Output) -> String {
    format!(
        "messages={} captured={} pointer={:?}",
        Value::Array(o.messages.clone()),
        o.is_input_captured,
        o.pointer
    )
}

thread_local! {
    pub static TRANSLATED: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Translator that records its calls and changes every text.
pub struct Recorder;
impl RendererTranslator for Recorder {
    fn translate(&self, span: String) -> String {
        let out = format!("T({span})");
        TRANSLATED.with(|t| t.borrow_mut().push(span));
        out
    }
}

/// Digits of an index in base `base`, `len` of them.
pub fn digits(mut index: u64, base: u64, len: usize) -> Vec<usize> {
    let mut out = Vec::with_capacity(len);
    for _ in 0..len {
        out.push((index % base) as usize);
        index /= base;
    }
    out
}

/// Mixed-radix digits.
pub fn mixed(mut index: u64, bases: &[u64]) -> Vec<usize> {
    bases
        .iter()
        .map(|b| {
            let d = index % b;
            index /= b;
            d as usize
        })
        .collect()
}
