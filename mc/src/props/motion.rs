//! Values which change over time, for the checks about animations and transitions.
use crate::obs::*;
use bumaga::Fragment;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    Px(f64),
    Pct(f64),
    /// of a font size of 16px
    Em(f64),
    /// of a viewport height of 600px
    Vh(f64),
    N(f64),
    Zero,
    Color([u8; 4]),
    Word(&'static str),
}
use V::*;

impl V {
    pub fn css(&self) -> String {
        match self {
            Px(v) => format!("{v}px"),
            Pct(v) => format!("{v}%"),
            Em(v) => format!("{v}em"),
            Vh(v) => format!("{v}vh"),
            N(v) => format!("{v:?}"),
            Zero => "0".to_string(),
            Color([r, g, b, a]) => format!("#{r:02x}{g:02x}{b:02x}{a:02x}"),
            Word(w) => w.to_string(),
        }
    }
}

/// Value at a part of the way; between values of different kinds it switches half way.
pub fn between(a: V, b: V, t: f64) -> V {
    let mid = |a: f64, b: f64| a + (b - a) * t;
    if t <= 0.0 {
        return a;
    }
    if t >= 1.0 {
        return b;
    }
    match (a, b) {
        (Px(a), Px(b)) => Px(mid(a, b)),
        (Pct(a), Pct(b)) => Pct(mid(a, b)),
        (N(a), N(b)) => N(mid(a, b)),
        (Em(a), Em(b)) => Em(mid(a, b)),
        (Vh(a), Vh(b)) => Vh(mid(a, b)),
        (Em(a), Zero) => Em(mid(a, 0.0)),
        (Vh(a), Zero) => Vh(mid(a, 0.0)),
        (Zero, Em(b)) => Em(mid(0.0, b)),
        (Zero, Vh(b)) => Vh(mid(0.0, b)),
        (Px(a), Zero) => Px(mid(a, 0.0)),
        (Pct(a), Zero) => Pct(mid(a, 0.0)),
        (N(a), Zero) => N(mid(a, 0.0)),
        (Zero, Px(b)) => Px(mid(0.0, b)),
        (Zero, Pct(b)) => Pct(mid(0.0, b)),
        (Zero, N(b)) => N(mid(0.0, b)),
        (Color(a), Color(b)) => {
            let mut c = [0; 4];
            for i in 0..4 {
                c[i] = mid(a[i] as f64, b[i] as f64).floor() as u8;
            }
            Color(c)
        }
        (a, b) => {
            if t < 0.5 {
                a
            } else {
                b
            }
        }
    }
}

/// Properties with the aspect which shows them and what it is without a declaration.
pub const PROPERTIES: [(&str, &str, V); 14] = [
    ("width", "layout.width", Word("Auto")),
    ("height", "layout.height", Word("Auto")),
    ("left", "layout.left", Word("Auto")),
    ("margin-top", "layout.margin.top", Zero),
    ("padding-right", "layout.padding.right", Zero),
    ("opacity", "self_opacity", N(1.0)),
    ("font-size", "font.size", Px(16.0)),
    ("color", "color", Color([0, 0, 0, 255])),
    ("background-color", "bg0.color", Color([0, 0, 0, 0])),
    ("border-top-width", "layout.border.top", Zero),
    ("border-left-color", "border.left.color", Word("Default")),
    ("flex-grow", "layout.flex_grow", N(0.0)),
    ("visibility", "visible", Word("visible")),
    ("font-weight", "font.weight", N(400.0)),
];

pub fn unset(property: &str) -> V {
    PROPERTIES.iter().find(|p| p.0 == property).unwrap().2
}

fn numbers(s: &str) -> Vec<f64> {
    s.split(|c: char| !c.is_ascii_digit() && c != '.' && c != '-')
        .filter_map(|p| p.parse().ok())
        .collect()
}

/// The aspects of an element.
pub struct Shown(Vec<(&'static str, String)>);

pub fn look(f: &Fragment) -> Shown {
    let mut list = vec![];
    style_aspects(f, &mut list);
    Shown(list)
}

/// Does the element show the value?
pub fn shows(shown: &Shown, property: &str, value: V) -> Result<String, String> {
    let (_, name, _) = PROPERTIES.iter().find(|p| p.0 == property).unwrap();
    let is = shown.0.iter().find(|a| a.0 == *name).map(|a| a.1.clone()).unwrap_or_default();
    let n = numbers(&is);
    let near = |x: f64| n.len() == 1 && (n[0] - x).abs() <= 0.002 + 1e-5 * x.abs();
    let kind = |k: &str| !is.contains('(') || is.starts_with(k);
    let ok = match value {
        Px(v) => near(v) && (v == 0.0 || kind("Length")),
        Pct(v) => near(v / 100.0) && (v == 0.0 || kind("Percent")),
        Em(v) => near(v * 16.0) && (v == 0.0 || kind("Length")),
        Vh(v) => near(v * 6.0) && (v == 0.0 || kind("Length")),
        // whole numbers
        N(v) if property == "font-weight" => n.len() == 1 && (n[0] - v).abs() < 1.001,
        N(v) => near(v),
        Zero => near(0.0),
        Color(c) => n.len() == 4 && c.iter().zip(&n).all(|(a, b)| (*a as f64 - b).abs() <= 1.0),
        Word("visible") => is == "true",
        Word("hidden") => is == "false",
        Word("auto") => is == "Auto",
        Word(w) => is == w || w == "Default",
    };
    if ok {
        Ok(is)
    } else {
        Err(format!("{property} is {is}, expected {}", value.css()))
    }
}

/// No aspect of the tree is a value which is not a finite number.
pub fn finite(f: &Fragment) -> Result<String, String> {
    let mut text = String::new();
    full(f, &mut text);
    if text.contains("NaN") || text.contains("inf;") || text.contains("inf)") || text.contains("inf,") || text.contains("inf]") {
        let list = aspects(f);
        for c in f.children() {
            finite(&c)?;
        }
        let bad: Vec<_> = list.iter().filter(|a| a.1.contains("NaN") || a.1.contains("inf")).collect();
        return Err(format!("not a number: {bad:?}"));
    }
    Ok(text)
}
