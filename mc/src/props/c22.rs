use super::decls::*;
use super::*;
use bumaga::Fragment;
use std::collections::HashMap;

/// Places of a stylesheet where the writer has a choice.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Gap {
    /// around the sheet and between rules
    Rule,
    /// around braces, colons, semicolons, commas of lists
    Opt,
    /// between values
    Space,
    /// inside of the parentheses of a function
    Paren,
    /// inside of the brackets of an attribute selector
    Bracket,
    /// around combinators and commas of selectors
    Comb,
}

const GAPS: [Gap; 6] = [Gap::Rule, Gap::Opt, Gap::Space, Gap::Paren, Gap::Bracket, Gap::Comb];

fn variants(g: Gap) -> &'static [&'static str] {
    match g {
        Gap::Rule => &["", "\n", "/* p { } */", "\r\n\t", " /* \" */ /**/\n"],
        Gap::Opt => &["", " ", "\n", "/* ; } { */", "\r\n\t/* a *//* ' */ "],
        Gap::Space => &[" ", "\n", "\t  ", "/**/", " /* a: b; */\r\n"],
        Gap::Paren => &["", " ", "\n\t", "/* ) */", " /*,*/ "],
        Gap::Bracket => &["", " ", "\r\n", "/* ] */", " \t"],
        Gap::Comb => &["", " ", "\n", "/* > */", "\t/**/ "],
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Lit(String),
    Gap(Gap),
}

#[derive(Clone, Default)]
struct Sheet(Vec<Tok>);

impl Sheet {
    fn lit(&mut self, s: &str) -> &mut Self {
        if let Some(Tok::Lit(l)) = self.0.last_mut() {
            l.push_str(s);
        } else {
            self.0.push(Tok::Lit(s.to_string()));
        }
        self
    }

    fn gap(&mut self, g: Gap) -> &mut Self {
        // two choices at one place are one
        if !matches!(self.0.last(), Some(Tok::Gap(_))) {
            self.0.push(Tok::Gap(g));
        }
        self
    }

    /// A declaration, from the way it is usually written.
    fn decl(&mut self, css: &str) -> &mut Self {
        let (property, value) = css.trim().trim_end_matches(';').split_once(':').unwrap();
        self.lit(property).gap(Gap::Opt).lit(":").gap(Gap::Opt);
        let mut depth = 0;
        let mut quoted = false;
        let mut comma = false;
        for c in value.trim().chars() {
            if quoted || c == '"' {
                quoted ^= c == '"';
                self.lit(&c.to_string());
                comma = false;
                continue;
            }
            match c {
                '(' => {
                    depth += 1;
                    self.lit("(").gap(Gap::Paren);
                }
                ')' => {
                    depth -= 1;
                    self.gap(Gap::Paren).lit(")");
                }
                ',' => {
                    let g = if depth > 0 { Gap::Paren } else { Gap::Opt };
                    self.gap(g).lit(",").gap(g);
                }
                ' ' if comma => {}
                ' ' => {
                    self.gap(Gap::Space);
                }
                c => {
                    self.lit(&c.to_string());
                }
            }
            comma = c == ',';
        }
        self.gap(Gap::Opt).lit(";").gap(Gap::Opt)
    }

    /// A selector written without any optional white space.
    fn selector(&mut self, css: &str) -> &mut Self {
        let mut bracket = false;
        let mut quoted = false;
        let chars: Vec<char> = css.chars().collect();
        for (i, c) in chars.iter().enumerate() {
            if quoted || *c == '"' {
                quoted ^= *c == '"';
                self.lit(&c.to_string());
                continue;
            }
            match c {
                '[' => {
                    bracket = true;
                    self.lit("[").gap(Gap::Bracket);
                }
                ']' => {
                    bracket = false;
                    self.gap(Gap::Bracket).lit("]");
                }
                '~' | '|' | '^' | '$' | '*' if bracket => {
                    self.gap(Gap::Bracket).lit(&c.to_string());
                }
                '=' => {
                    if !"~|^$*".contains(chars[i - 1]) {
                        self.gap(Gap::Bracket);
                    }
                    self.lit("=").gap(Gap::Bracket);
                }
                '>' | '+' | ',' => {
                    self.gap(Gap::Comb).lit(&c.to_string()).gap(Gap::Comb);
                }
                c => {
                    self.lit(&c.to_string());
                }
            }
        }
        self
    }

    fn open(&mut self) -> &mut Self {
        self.gap(Gap::Opt).lit("{").gap(Gap::Opt)
    }

    fn close(&mut self) -> &mut Self {
        self.lit("}").gap(Gap::Rule)
    }

    fn block<S: AsRef<str>>(&mut self, decls: &[S]) -> &mut Self {
        self.open();
        for d in decls {
            self.decl(d.as_ref());
        }
        self.close()
    }

    fn rule<S: AsRef<str>>(&mut self, selector: &str, decls: &[S]) -> &mut Self {
        self.gap(Gap::Rule).selector(selector).block(decls)
    }

    fn keyframes(&mut self, name: &str, steps: &[(&str, Vec<&str>)]) -> &mut Self {
        self.gap(Gap::Rule).lit("@keyframes").gap(Gap::Space).lit(name).open();
        for (step, decls) in steps {
            self.lit(step).block(decls);
        }
        self.close()
    }

    fn write(&self, layout: &Layout) -> String {
        let mut s = String::new();
        for (i, t) in self.0.iter().enumerate() {
            match t {
                Tok::Lit(l) => s.push_str(l),
                Tok::Gap(g) => {
                    let kind = GAPS.iter().position(|k| k == g).unwrap();
                    let v = match layout.one {
                        Some((at, v)) if at == i => v,
                        _ => layout.kinds[kind],
                    };
                    s.push_str(variants(*g)[v]);
                }
            }
        }
        s
    }

    /// Every layout which differs from the plain one in one gap, one kind of gap, or everywhere;
    /// or just the latter.
    fn layouts(&self, all: bool) -> Vec<String> {
        let mut out = vec![self.write(&Layout { kinds: [0; 6], one: None })];
        if !all {
            out.extend((1..5).map(|v| self.write(&Layout { kinds: [v; 6], one: None })));
            return out;
        }
        for k in 0..GAPS.len() {
            for v in 1..5 {
                let mut kinds = [0; 6];
                kinds[k] = v;
                out.push(self.write(&Layout { kinds, one: None }));
            }
        }
        for v in 1..5 {
            out.push(self.write(&Layout { kinds: [v; 6], one: None }));
        }
        for (i, t) in self.0.iter().enumerate() {
            if matches!(t, Tok::Gap(_)) {
                for v in 1..5 {
                    out.push(self.write(&Layout { kinds: [0; 6], one: Some((i, v)) }));
                }
            }
        }
        let mut seen = std::collections::HashSet::new();
        out.retain(|s| seen.insert(s.clone()));
        out
    }
}

struct Layout {
    kinds: [usize; 6],
    one: Option<(usize, usize)>,
}

const PAGE: &str = "<html><body><div id=\"i\" class=\"c d2\" a=\"x y\" b-1=\"z\" hidden></div></body></html>";

fn seen(f: &Fragment) -> Aspects {
    let mut a = vec![];
    style_aspects(f, &mut a);
    a
}

fn written(a: &Aspects) -> String {
    a.iter().map(|(n, v)| format!("{n}={v};")).collect()
}

/// The only element is as expected, with the sheet in every layout.
fn as_sheet(sheet: &Sheet, every: bool, expected: &Aspects, ctx: &mut crate::engine::Ctx) -> Result<(), String> {
    for css in sheet.layouts(every) {
        let mut v = view(PAGE, &css).map_err(|e| format!("{e} for {css:?}"))?;
        Step::new(json!({})).run(&mut v)?;
        let a = seen(&v.body().children()[0]);
        ctx.step(&css, &written(&a));
        compare(&a, expected).map_err(|e| format!("{e} for {css:?}"))?;
    }
    Ok(())
}

/// The same with declarations as inline style.
fn as_inline<S: AsRef<str>>(decls: &[S], every: bool, expected: &Aspects, ctx: &mut crate::engine::Ctx) -> Result<(), String> {
    let mut sheet = Sheet::default();
    sheet.gap(Gap::Opt);
    for d in decls {
        sheet.decl(d.as_ref());
    }
    for css in sheet.layouts(every) {
        let mut v = view("<html><body><div @style=\"{s}\"></div></body></html>", "")?;
        Step::new(json!({"s": css})).run(&mut v)?;
        let a = seen(&v.body().children()[0]);
        ctx.step(&css, &written(&a));
        compare(&a, expected).map_err(|e| format!("{e} for inline style {css:?}"))?;
    }
    Ok(())
}

fn both<S: AsRef<str>>(decls: &[S], every: bool, expected: &Aspects, ctx: &mut crate::engine::Ctx) -> Result<(), String> {
    let mut sheet = Sheet::default();
    sheet.rule("div", decls);
    as_sheet(&sheet, every, expected, ctx)?;
    as_inline(decls, every, expected, ctx)
}

fn every_declaration() -> Family {
    let decls = all();
    let initial = initial().unwrap();
    Family::new("every declaration", decls.len() as u64, move |index, ctx| {
        let d = &decls[index as usize];
        ctx.begin(&d.css);
        let mut expected = initial.clone();
        set(&mut expected, d);
        both(&[&d.css], true, &expected, ctx)
    })
}

/// Declarations which have no effect at all.
const USELESS: [&str; 22] = [
    "foo: 1px;",
    "width2: 5px;",
    "-x-width: 5px;",
    "_width: 5px;",
    "widt: 5px;",
    "color3: red;",
    "unknown: f(1, 2) \"s\" #ffffff, -1.5em;",
    "--unused: 3px;",
    "--w-1: f(a, \"b\") c, d;",
    "width: red;",
    "height: \"5px\";",
    "color: 5px;",
    "color: nosuchcolor;",
    "display: nosuch;",
    "margin-left: nosuch;",
    "opacity: \"x\";",
    "visibility: 3;",
    "font-size: nosuch;",
    "background-color: nosuch(1, 2);",
    "padding-top: nosuch(1px);",
    "flex-direction: 5%;",
    "border-top-width: var(--undefined);",
];

fn useless(thorough: bool) -> Family {
    let decls = spread(if thorough { 3 } else { 1 });
    let n = decls.len() as u64;
    let u = USELESS.len() as u64;
    let initial = initial().unwrap();
    let affected: HashMap<&str, Vec<&str>> = {
        let mut map: HashMap<&str, Vec<&str>> = HashMap::new();
        for d in all() {
            map.entry(d.property).or_default().extend(d.sets.iter().map(|s| s.0));
        }
        map
    };
    Family::new("declarations without effect", n * u * 3, move |index, ctx| {
        let [d, bad, at] = mixed(index, &[n, u, 3])[..] else { unreachable!() };
        let (d, bad) = (&decls[d], USELESS[bad]);
        ctx.begin(bad);
        let property = bad.split(':').next().unwrap();
        if let Some(list) = affected.get(property) {
            // the two would compete for the same aspect
            if d.sets.iter().any(|s| list.contains(&s.0)) {
                return Ok(());
            }
        }
        let other = if d.property == "left" || property == "left" { "right: 7px;" } else { "left: 7px;" };
        if d.sets.iter().any(|s| s.0.starts_with("layout.left") || s.0.starts_with("layout.right")) {
            return Ok(());
        }
        let mut expected = initial.clone();
        set(&mut expected, d);
        let name = if other.starts_with("left") { "layout.left" } else { "layout.right" };
        expected.iter_mut().find(|a| a.0 == name).unwrap().1 = "Length(7.0)".to_string();
        let list = match at {
            0 => [bad, &d.css, other],
            1 => [&d.css, bad, other],
            _ => [&d.css, other, bad],
        };
        both(&list, thorough, &expected, ctx)
    })
}

fn pairs(thorough: bool) -> Family {
    let decls = spread(1);
    let n = decls.len() as u64;
    let initial = initial().unwrap();
    Family::new("pairs of declarations", n * n, move |index, ctx| {
        let (a, b) = (&decls[(index / n) as usize], &decls[(index % n) as usize]);
        ctx.begin(&a.css);
        // lengths relative to the font size of the element itself are another matter
        if [(a, b), (b, a)].iter().any(|(a, b)| a.property == "font-size" && b.css.contains("em")) {
            return Ok(());
        }
        let mut expected = initial.clone();
        set(&mut expected, a);
        set(&mut expected, b);
        both(&[&a.css, &b.css], thorough, &expected, ctx)?;
        let mut sheet = Sheet::default();
        sheet.rule("div", &[&a.css]).rule("p", &[&a.css]).rule("*", &[&b.css]).rule("div", &[] as &[&str]);
        as_sheet(&sheet, thorough, &expected, ctx)
    })
}

fn numbers() -> Family {
    let mut list: Vec<String> = vec![];
    for whole in ["", "0", "1", "9", "10", "12", "345", "6789"] {
        for part in ["", ".0", ".5", ".25", ".125", ".50", ".75"] {
            for sign in ["", "-"] {
                if whole.is_empty() && part.is_empty() {
                    continue;
                }
                list.push(format!("{sign}{whole}{part}"));
            }
        }
    }
    const UNITS: [(&str, f64); 8] =
        [("px", 1.0), ("em", 16.0), ("rem", 16.0), ("vw", 8.0), ("vh", 6.0), ("vmin", 6.0), ("vmax", 8.0), ("%", 0.01)];
    let n = list.len() as u64;
    Family::new("numbers", n * 8, move |index, ctx| {
        let [number, unit] = mixed(index, &[n, 8])[..] else { unreachable!() };
        let number = &list[number];
        let (unit, factor) = UNITS[unit];
        ctx.begin(number);
        let v: f64 = number.parse().unwrap();
        let mut values = vec![("margin-left", "layout.margin.left", format!("{number}{unit}"), v * factor)];
        if unit == "px" && v >= 0.0 {
            values.push(("flex-grow", "layout.flex_grow", number.clone(), v));
            if v <= 1.0 {
                values.push(("opacity", "opacity", number.clone(), v));
            }
        }
        for (property, aspect, text, expected) in values {
            let decl = format!("{property}: {text};");
            for inline in [false, true] {
                let (css, value) = if inline { (String::new(), json!({"s": decl})) } else { (format!("div {{ {decl} }}"), json!({"s": ""})) };
                let mut v = view("<html><body><div @style=\"{s}\"></div></body></html>", &css).map_err(|e| format!("{e} for {css:?}"))?;
                Step::new(value).run(&mut v)?;
                let a = seen(&v.body().children()[0]);
                let is = &a.iter().find(|x| x.0 == aspect).unwrap().1;
                ctx.step(&decl, is);
                let digits = is.trim_start_matches(|c: char| c.is_alphabetic() || c == '(').trim_end_matches(')');
                let kind = if unit == "%" { "Percent" } else { "Length" };
                let near = digits.parse::<f64>().is_ok_and(|x| (x - expected).abs() <= 1e-5 * (1.0 + expected.abs()));
                if !near || (is.contains('(') && !is.starts_with(kind)) {
                    return Err(format!("{aspect} is {is}, expected {expected} for {decl:?}"));
                }
            }
        }
        Ok(())
    })
}

/// Every hex digit at every place of every form, and every channel value of the functions.
fn colors() -> Family {
    let mut list: Vec<(String, [u8; 4])> = vec![];
    let hex: Vec<char> = "0123456789abcdefABCDEF".chars().collect();
    for len in [3usize, 4, 6, 8] {
        for base in ["15926843", "00000000", "ffffffff", "aBcDeF7A"] {
            for at in 0..len {
                for c in &hex {
                    let mut digits: Vec<char> = base.chars().take(len).collect();
                    digits[at] = *c;
                    let d: Vec<u8> = digits.iter().map(|c| c.to_digit(16).unwrap() as u8).collect();
                    let mut color = [0, 0, 0, 255];
                    if len < 5 {
                        for (i, d) in d.iter().enumerate() {
                            color[i] = d * 17;
                        }
                    } else {
                        for i in 0..len / 2 {
                            color[i] = d[2 * i] * 16 + d[2 * i + 1];
                        }
                    }
                    list.push((format!("#{}", digits.iter().collect::<String>()), color));
                }
            }
        }
    }
    for v in 0..=255u8 {
        for i in 0..3 {
            let mut c = [v / 2, 255 - v, 17, 255];
            c[i] = v;
            list.push((format!("rgb({}, {}, {})", c[0], c[1], c[2]), c));
            list.push((format!("rgba({}, {}, {}, 1)", c[0], c[1], c[2]), c));
            c[3] = 0;
            list.push((format!("rgba({}, {}, {}, 0)", c[0], c[1], c[2]), c));
            c[3] = 51;
            list.push((format!("rgba({}, {}, {}, 0.2)", c[0], c[1], c[2]), c));
        }
    }
    let initial = initial().unwrap();
    let size = 32;
    Family::new("colors", (list.len() as u64 + size - 1) / size, move |index, ctx| {
        ctx.begin("colors");
        for (css, color) in list.iter().skip((index * size) as usize).take(size as usize) {
            for (property, aspect) in [("color", "color"), ("background-color", "bg0.color"), ("border-left-color", "border.left.color")] {
                let decl = format!("{property}: {css};");
                let mut v = view("<html><body><div></div></body></html>", &format!("div {{ {decl} }}")).map_err(|e| format!("{e} for {decl:?}"))?;
                Step::new(json!({})).run(&mut v)?;
                let a = seen(&v.body().children()[0]);
                ctx.step(&decl, &written(&a));
                let mut expected = initial.clone();
                expected.iter_mut().find(|x| x.0 == aspect).unwrap().1 = format!("{color:?}");
                compare(&a, &expected).map_err(|e| format!("{e} for {decl:?}"))?;
            }
        }
        Ok(())
    })
}

/// Channels of colors written as percentages, fractions and beyond their bounds: a channel lies between 0 and 255
/// and is the nearest whole number or the one below.
fn channels() -> Family {
    let mut list: Vec<(String, f64)> = vec![];
    for percent in 0..=100 {
        list.push((format!("{percent}%"), percent as f64 * 2.55));
        list.push((format!("{percent}.5%"), ((percent as f64 + 0.5) * 2.55).min(255.0)));
    }
    for percent in ["100.1%", "101%", "102%", "150%", "200%", "201%", "300%", "1000%", "100000%"] {
        list.push((percent.to_string(), 255.0));
    }
    for percent in ["-0.1%", "-1%", "-50%", "-100%", "-200%", "-1000%"] {
        list.push((percent.to_string(), 0.0));
    }
    let shares = list.len();
    for part in 0..=100 {
        list.push((format!("{:.2}", part as f64 / 100.0), part as f64 * 2.55));
    }
    for part in ["1.01", "1.5", "2", "10", "255", "256", "1000"] {
        list.push((part.to_string(), 255.0));
    }
    for part in ["-0.01", "-0.5", "-1", "-1.01", "-2", "-255", "-1000"] {
        list.push((part.to_string(), 0.0));
    }
    let alphas = list.len();
    for number in ["256", "257", "300", "511", "512", "1000", "65536", "100000", "4294967296", "255.5"] {
        list.push((number.to_string(), 255.0));
    }
    for number in ["-0.5", "-1", "-2", "-128", "-255", "-256", "-257", "-65536"] {
        list.push((number.to_string(), 0.0));
    }
    let initial = initial().unwrap();
    Family::new("channels", list.len() as u64, move |index, ctx| {
        ctx.begin("channels");
        let index = index as usize;
        let (value, exact) = &list[index];
        let mut forms = vec![];
        if index < shares || index >= alphas {
            forms.push((format!("rgb({value}, 9, 8)"), [*exact, 9.0, 8.0, 255.0]));
            forms.push((format!("rgb(7, {value}, 8)"), [7.0, *exact, 8.0, 255.0]));
            forms.push((format!("rgb(7, 9, {value})"), [7.0, 9.0, *exact, 255.0]));
            forms.push((format!("rgb({value}, {value}, {value})"), [*exact, *exact, *exact, 255.0]));
            forms.push((format!("rgba({value}, 9, {value}, 1)"), [*exact, 9.0, *exact, 255.0]));
        }
        if index < alphas {
            forms.push((format!("rgba(7, 9, 8, {value})"), [7.0, 9.0, 8.0, *exact]));
            forms.push((format!("rgba(0, 100%, 0, {value})"), [0.0, 255.0, 0.0, *exact]));
        }
        for (css, exact) in forms {
            for (property, aspect) in [("color", "color"), ("background-color", "bg0.color"), ("border-left-color", "border.left.color")] {
                let decl = format!("{property}: {css};");
                let mut v = view("<html><body><div></div></body></html>", &format!("div {{ {decl} }}")).map_err(|e| format!("{e} for {decl:?}"))?;
                Step::new(json!({})).run(&mut v)?;
                let a = seen(&v.body().children()[0]);
                ctx.step(&decl, &written(&a));
                let found = a.iter().find(|x| x.0 == aspect).unwrap().1.clone();
                let color: Vec<f64> = serde_json::from_str(&found).map_err(|e| format!("color {found:?} for {decl:?}: {e}"))?;
                let whole = |at: f64| at.round() == at;
                for (found, exact) in color.iter().zip(exact) {
                    if !whole(*found) || *found > (exact + 0.5 + 1e-3).floor() || *found < (exact - 1e-3).floor() {
                        return Err(format!("{aspect} is {color:?} for {decl:?}, expected {exact} as a channel"));
                    }
                }
                let mut expected = initial.clone();
                expected.iter_mut().find(|x| x.0 == aspect).unwrap().1 = found;
                compare(&a, &expected).map_err(|e| format!("{e} for {decl:?}"))?;
            }
        }
        Ok(())
    })
}

/// Durations and delays of animations and transitions, written in seconds and milliseconds.
fn times() -> Family {
    let mut list: Vec<(String, f32)> = vec![];
    for ms in [1, 2, 3, 5, 7, 10, 15, 20, 40, 99, 100, 101, 125, 250, 333, 500, 750, 999, 1000, 1001, 1500, 2345, 10000, 60000] {
        list.push((format!("{ms}ms"), ms as f32 / 1000.0));
        list.push((format!("{ms}.0ms"), ms as f32 / 1000.0));
        list.push((format!("{}s", ms as f64 / 1000.0), ms as f32 / 1000.0));
        list.push((format!("{:.4}s", ms as f64 / 1000.0), ms as f32 / 1000.0));
    }
    list.push((".5s".to_string(), 0.5));
    list.push((".5ms".to_string(), 0.0005));
    list.push(("2.5ms".to_string(), 0.0025));
    list.push(("12345s".to_string(), 12345.0));
    const FORMS: [&str; 6] = [
        "animation-name: k; animation-duration: T;",
        "animation: T k;",
        "animation: T linear k;",
        "animation-name: k; animation-delay: T; animation-duration: 1s;",
        "transition-property: width; transition-duration: T;",
        "transition: width T;",
    ];
    let (n, f) = (list.len() as u64, FORMS.len() as u64);
    Family::new("times", n * f * 2, move |index, ctx| {
        let [time, form, inline] = mixed(index, &[n, f, 2])[..] else { unreachable!() };
        let (text, seconds) = &list[time];
        let style = FORMS[form].replace('T', text);
        ctx.begin(&style);
        let (css, style) = if inline == 1 { (String::new(), style) } else { (format!("div {{ {style} }}"), String::new()) };
        let css = format!("@keyframes k {{ from {{ width: 0px; }} to {{ width: 100px; }} }} {css}");
        let mut v = view("<html><body><div @style=\"{s} width: {w}px;\"></div></body></html>", &css).map_err(|e| format!("{e} for {css:?}"))?;
        Step::new(json!({"s": style, "w": 1})).run(&mut v)?;
        Step::new(json!({"s": style, "w": 1})).run(&mut v)?;
        Step::new(json!({"s": style, "w": 101})).run(&mut v)?;
        let delay = if form == 3 { *seconds } else { 0.0 };
        let duration = if form == 3 { 1.0 } else { *seconds };
        let mut passed = 0.0;
        for part in [0.255f32, 0.505, 0.805, 2.0] {
            let step = delay * (part == 0.255) as u8 as f32 + duration * (part - passed);
            passed = part;
            Step::new(json!({"s": style, "w": 101})).time(step).run(&mut v)?;
            let is = seen(&v.body().children()[0]).into_iter().find(|x| x.0 == "layout.width").unwrap().1;
            ctx.step(&format!("{style} {css}"), &is);
            let x: f32 = is.trim_start_matches("Length(").trim_end_matches(')').parse().unwrap_or(f32::NAN);
            // animations move in whole percents
            let expected = if form < 4 { (part.min(1.0) * 100.0).floor() } else { 1.0 + part.min(1.0) * 100.0 };
            if !((x - expected).abs() < 0.2) {
                return Err(format!("width is {is} at {part} of the time, expected about {expected} for {style:?} {css:?}"));
            }
        }
        Ok(())
    })
}

/// A keyframe at every percentage.
fn steps() -> Family {
    Family::new("steps", 101 * 2, move |index, ctx| {
        let (step, other) = (index / 2, index % 2);
        ctx.begin("steps");
        let other = ["", "0% { width: 0px; } 100% { width: 0px; }"][other as usize];
        let css = format!("@keyframes k {{ {step}% {{ width: 100px; }} {other} }} div {{ width: 0px; animation: 100s k; }}");
        let mut v = view(PAGE, &css).map_err(|e| format!("{e} for {css:?}"))?;
        Step::new(json!({})).run(&mut v)?;
        let mut highest = (0.0, -1.0);
        for second in 0..=100 {
            Step::new(json!({})).time(if second == 0 { 0.5 } else { 1.0 }).run(&mut v)?;
            let is = seen(&v.body().children()[0]).into_iter().find(|x| x.0 == "layout.width").unwrap().1;
            ctx.step(&css, &is);
            let x: f32 = is.trim_start_matches("Length(").trim_end_matches(')').parse().unwrap_or(0.0);
            if x > highest.0 {
                highest = (x, second as f32);
            }
        }
        // (which of two keyframes at the same place counts is not judged)
        if (step > 0 && step < 100 || other.is_empty()) && (highest.0 != 100.0 || highest.1 != step as f32) {
            return Err(format!("the highest width is {} at second {}, expected 100 at {step} for {css:?}", highest.0, highest.1));
        }
        Ok(())
    })
}

/// All short strings over the characters which mean something elsewhere.
fn literals(length: usize) -> Family {
    const CHARS: [&str; 20] =
        ["a", " ", "  ", "{", "}", ";", ":", ",", "(", ")", "/*", "*/", "'", "#", "@", "é", "\n", "\\", "0px", "."];
    let n = CHARS.len() as u64;
    let initial = initial().unwrap();
    Family::new("strings", n.pow(length as u32), move |index, ctx| {
        let text: String = digits(index, n, length).into_iter().map(|i| CHARS[i]).collect();
        ctx.begin("strings");
        let decls = [format!("font-family: \"{text}\";"), format!("background-image: url(\"{text}\");"), "width: 3px;".to_string()];
        let mut expected = initial.clone();
        for (name, v) in [("font.family", format!("{text:?}")), ("bg0.image", format!("Some({text:?})")), ("layout.width", "Length(3.0)".to_string())] {
            expected.iter_mut().find(|x| x.0 == name).unwrap().1 = v;
        }
        for inline in [false, true] {
            let block = decls.join(" ");
            let (css, value) = if inline { (String::new(), json!({"s": block})) } else { (format!("div {{ {block} }}"), json!({"s": ""})) };
            let mut v = view("<html><body><div @style=\"{s}\"></div></body></html>", &css).map_err(|e| format!("{e} for {css:?}"))?;
            Step::new(value).run(&mut v)?;
            let a = seen(&v.body().children()[0]);
            ctx.step(&block, &written(&a));
            compare(&a, &expected).map_err(|e| format!("{e} for {block:?}"))?;
        }
        // and as value of an attribute
        let html = "<html><body><div @a=\"{s}\"></div></body></html>";
        let css = format!("[a=\"{text}\"] {{ width: 5px; }}");
        let mut v = view(html, &css).map_err(|e| format!("{e} for {css:?}"))?;
        for (value, width) in [(text.clone(), "Length(5.0)"), (format!("{text}x"), "Auto")] {
            Step::new(json!({"s": value})).run(&mut v)?;
            let mut expected = initial.clone();
            expected.iter_mut().find(|x| x.0 == "layout.width").unwrap().1 = width.to_string();
            let a = seen(&v.body().children()[0]);
            ctx.step(&css, &written(&a));
            compare(&a, &expected).map_err(|e| format!("{e} for {css:?} and {value:?}"))?;
        }
        Ok(())
    })
}

/// Does the selector match the element of the page?
const COMPOUNDS: [(&str, bool); 30] = [
    ("div", true),
    ("p", false),
    ("*", true),
    ("#i", true),
    ("#i2", false),
    ("#I", false),
    (".c", true),
    (".d2", true),
    (".d", false),
    (".c.d2", true),
    ("div.c#i", true),
    ("div#i.d3", false),
    ("[a]", true),
    ("[a][b-1]", true),
    ("[b]", false),
    ("[hidden]", true),
    ("[a=\"x y\"]", true),
    ("[a=\"x  y\"]", false),
    ("[a=x]", false),
    ("[b-1=z]", true),
    ("[b-1=\"z\"]", true),
    ("[a~=x]", true),
    ("[a~=\"y\"]", true),
    ("[a|=x]", false),
    ("[a^=\"x \"]", true),
    ("[a$=y]", true),
    ("[a*=\" \"]", true),
    ("[a*=\"yx\"]", false),
    ("div:hover", false),
    ("div[id=i][class^=c]", true),
];

fn selectors(thorough: bool) -> Family {
    let n = COMPOUNDS.len() as u64;
    let initial = initial().unwrap();
    Family::new("selectors", n * n * 4, move |index, ctx| {
        let [a, b, form] = mixed(index, &[n, n, 4])[..] else { unreachable!() };
        let ((a, ma), (b, mb)) = (COMPOUNDS[a], COMPOUNDS[b]);
        // the body is the only parent, and the element has no neighbour
        let (selector, matches) = match form {
            0 => (format!("{a},{b}"), ma || mb),
            1 => (format!("body>{a},{b}+{b}"), ma),
            2 => (format!("p>{a},body>{b}"), mb),
            _ => (format!("{b}+{a},body+{a},html>{a},p.c,{b}"), mb),
        };
        ctx.begin("selectors");
        let mut sheet = Sheet::default();
        sheet.rule(&selector, &["width: 5px;"]).rule("div", &["height: 3px;"]);
        let mut expected = initial.clone();
        expected.iter_mut().find(|x| x.0 == "layout.height").unwrap().1 = "Length(3.0)".to_string();
        if matches {
            expected.iter_mut().find(|x| x.0 == "layout.width").unwrap().1 = "Length(5.0)".to_string();
        }
        as_sheet(&sheet, thorough || a == b, &expected, ctx)
    })
}

const NAMES: [&str; 10] = ["a", "fade", "fade-in", "fade2", "Fade_2x", "_a", "-b", "--c", "--c-3d", "width"];

/// Keyframes with a rule before and behind, sampled along the way.
fn keyframes() -> Family {
    type Steps = Vec<(&'static str, Vec<&'static str>)>;
    let w = |step: &'static str, w: &'static str| (step, vec![w]);
    let layouts: Vec<(Steps, [f64; 3])> = vec![
        // widths at the start, in the middle and at the end
        (vec![w("from", "width: 10px;"), w("to", "width: 20px;")], [10.0, 15.0, 20.0]),
        (vec![w("0%", "width: 10px;"), w("100%", "width: 20px;")], [10.0, 15.0, 20.0]),
        (vec![w("to", "width: 20px;"), w("from", "width: 10px;")], [10.0, 15.0, 20.0]),
        (vec![w("0%", "width: 10px;"), w("50%", "width: 90px;"), w("to", "width: -20px;")], [10.0, 90.0, -20.0]),
        (vec![w("25%", "width: 12px;"), w("75%", "width: 18px;"), w("from", "width: 10px;"), w("100%", "width: 20px;")], [10.0, 15.0, 20.0]),
        (vec![("from", vec!["height: 1px;", "width: 10px;", "foo: 3px;"]), ("50%", vec![]), ("to", vec!["foo: bar;", "width: 20px;"])], [10.0, 15.0, 20.0]),
    ];
    let (n, l) = (NAMES.len() as u64, layouts.len() as u64);
    Family::new("keyframes", n * l * 2, move |index, ctx| {
        let [name, layout, short] = mixed(index, &[n, l, 2])[..] else { unreachable!() };
        let (name, (steps, widths)) = (NAMES[name], &layouts[layout]);
        let lists = if short == 0 {
            vec![format!("animation-name: {name};"), "animation-duration: 2s;".to_string()]
        } else {
            vec![format!("animation: 2000ms {name};")]
        };
        ctx.begin(name);
        let mut sheet = Sheet::default();
        sheet
            .keyframes("other", &[("from", vec!["width: 1px;"])])
            .rule("div", &lists)
            .keyframes(name, steps)
            .rule("div", &["left: 3px;"])
            .keyframes("another", &[]);
        for css in sheet.layouts(true) {
            let mut v = view(PAGE, &css).map_err(|e| format!("{e} for {css:?}"))?;
            Step::new(json!({})).run(&mut v)?;
            for (time, width) in [0.0, 1.0, 1.0].into_iter().zip(widths) {
                Step::new(json!({})).time(time).run(&mut v)?;
                let a = seen(&v.body().children()[0]);
                ctx.step(&css, &written(&a));
                for (name, expected) in [("layout.width", format!("Length({width:?})")), ("layout.left", "Length(3.0)".to_string())] {
                    let is = &a.iter().find(|x| x.0 == name).unwrap().1;
                    if *is != expected {
                        return Err(format!("{name} is {is}, expected {expected} for {css:?}"));
                    }
                }
            }
        }
        Ok(())
    })
}

/// The last animation of a name is the one which is used, whatever stands between.
fn redefined() -> Family {
    let bodies = ["", "from { width: 10px; } to { width: 10px; }", "from { height: 30px; } to { height: 30px; }", "50% { width: 40px; }"];
    let names = ["n", "m"];
    let one = (bodies.len() * names.len()) as u64;
    let initial = initial().unwrap();
    Family::new("redefined", one.pow(3) * 2, move |index, ctx| {
        ctx.begin("redefined");
        let between = index / one.pow(3) == 1;
        let mut css = String::new();
        let mut last = None;
        for d in digits(index % one.pow(3), one, 3) {
            let [name, body] = mixed(d as u64, &[2, bodies.len() as u64])[..] else { unreachable!() };
            css += &format!("@keyframes {} {{ {} }}\n", names[name], bodies[body]);
            if between {
                css += "div { animation: n 1s; } ";
            }
            if name == 0 {
                last = Some(body);
            }
        }
        css += "div { animation-name: n; animation-duration: 1s; }";
        let mut v = view(PAGE, &css).map_err(|e| format!("{e} for {css:?}"))?;
        for _ in 0..3 {
            Step::new(json!({})).time(0.25).run(&mut v)?;
        }
        let mut expected = initial.clone();
        let (aspect, value) = match last {
            Some(1) => ("layout.width", "Length(10.0)"),
            Some(2) => ("layout.height", "Length(30.0)"),
            // auto is not a length
            Some(3) => ("layout.width", "Length(40.0)"),
            _ => ("layout.width", "Auto"),
        };
        expected.iter_mut().find(|x| x.0 == aspect).unwrap().1 = value.to_string();
        let a = seen(&v.body().children()[0]);
        ctx.step(&css, &written(&a));
        compare(&a, &expected).map_err(|e| format!("{e} for {css:?}"))
    })
}

/// All short names, at every place where a name can be.
fn names(length: usize) -> Family {
    const CHARS: [char; 5] = ['a', 'Z', '9', '-', '_'];
    let names: Vec<String> = (1..=length as u32)
        .flat_map(|l| (0..5u64.pow(l)).map(move |i| digits(i, 5, l as usize).into_iter().map(|i| CHARS[i]).collect::<String>()))
        .filter(|n| {
            let start = n.strip_prefix('-').unwrap_or(n);
            start.starts_with(|c: char| c.is_alphabetic() || c == '_')
        })
        .collect();
    let initial = initial().unwrap();
    Family::new("names", names.len() as u64, move |index, ctx| {
        let name = &names[index as usize];
        ctx.begin("names");
        let html = format!(
            "<html><body><div class=\"{name}\" id=\"{name}\" {name}=\"1\" x=\"{name}\"></div>\
             <div class=\"{name}a\" id=\"a{name}\" {name}0=\"1\" x=\"{name}_\"></div><div class=\"o {name} -\"></div></body></html>"
        );
        let css = format!(
            "@keyframes {name} {{ from {{ height: 7px; }} to {{ height: 7px; }} }} div {{ --{name}: 2px; }} \
             .{name} {{ width: 5px; }} #{name} {{ min-width: 6px; animation-name: {name}; animation-duration: 1s; }} \
             [{name}] {{ left: 3px; }} [x={name}] {{ top: 4px; }} div.{name}#{name}[{name}][x=\"{name}\"] {{ right: var(--{name}); }}"
        );
        let mut v = view(&html, &css).map_err(|e| format!("{e} for {css:?}"))?;
        for _ in 0..2 {
            Step::new(json!({})).time(0.25).run(&mut v)?;
        }
        let all = [("width", "5"), ("min_width", "6"), ("height", "7"), ("left", "3"), ("top", "4"), ("right", "2")];
        for (i, count) in [(0, 6), (1, 0), (2, 1)] {
            let mut expected = initial.clone();
            for (aspect, value) in &all[..count] {
                let aspect = format!("layout.{aspect}");
                expected.iter_mut().find(|x| x.0 == aspect).expect(&aspect).1 = format!("Length({value}.0)");
            }
            let a = seen(&v.body().children()[i]);
            ctx.step(&css, &written(&a));
            compare(&a, &expected).map_err(|e| format!("element {i}: {e} for {css:?}"))?;
        }
        Ok(())
    })
}

fn variables() -> Family {
    const NAMES: [&str; 8] = ["--a", "--a-b", "--A", "--a1", "--1", "--a_b", "---a", "--width"];
    let uses: Vec<(&str, &str, Aspects)> = vec![
        ("3px", "width: V;", vec![("layout.width", "Length(3.0)".to_string())]),
        ("3px", "margin: 1px V 2px V;", vec![
            ("layout.margin.top", "Length(1.0)".to_string()),
            ("layout.margin.right", "Length(3.0)".to_string()),
            ("layout.margin.bottom", "Length(2.0)".to_string()),
            ("layout.margin.left", "Length(3.0)".to_string()),
        ]),
        ("1px 2px", "overflow: hidden;", vec![("layout.overflow.x", "Hidden".to_string()), ("layout.overflow.y", "Hidden".to_string())]),
        ("1px 2px", "gap: V;", vec![("layout.gap.row", "Length(1.0)".to_string()), ("layout.gap.column", "Length(2.0)".to_string())]),
        ("5", "color: rgb(V, 6, V);", vec![("color", "[5, 6, 5, 255]".to_string())]),
        ("\"f\"", "background-image: url(V);", vec![("bg0.image", "Some(\"f\")".to_string())]),
        ("rgb(1, 2, 3)", "background-color: V;", vec![("bg0.color", "[1, 2, 3, 255]".to_string())]),
        ("red", "background-color: V, V;", vec![("bg0.color", "[255, 0, 0, 255]".to_string()), ("bg1.color", "[255, 0, 0, 255]".to_string())]),
    ];
    let (n, u) = (NAMES.len() as u64, uses.len() as u64);
    let initial = initial().unwrap();
    Family::new("variables", n * u * 3, move |index, ctx| {
        let [name, usage, form] = mixed(index, &[n, u, 3])[..] else { unreachable!() };
        let (value, decl, sets) = &uses[usage];
        let name = NAMES[name];
        ctx.begin(name);
        let call = match form {
            0 => format!("var({name})"),
            1 => format!("var({name}, 9px)"),
            _ => format!("var({name}, var(--no, f(a, b)))"),
        };
        let list = [format!("{name}: {value};"), decl.replace('V', &call)];
        let mut expected = initial.clone();
        for (name, v) in sets {
            expected.iter_mut().find(|x| x.0 == *name).unwrap().1 = v.clone();
        }
        both(&list, true, &expected, ctx)?;
        let mut sheet = Sheet::default();
        sheet.rule("body", &list[..1]).rule("div", &list[1..]);
        as_sheet(&sheet, true, &expected, ctx)
    })
}

/// Much of everything: the part which shows stands anywhere among many.
fn large() -> Family {
    let sizes = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300];
    let mut cases: Vec<(String, Vec<(&'static str, String)>)> = vec![];
    let px = |aspect: &'static str, v: usize| vec![(aspect, format!("Length({v}.0)"))];
    for n in sizes {
        let mut places = vec![0, 1, n / 2, n.saturating_sub(2), n - 1];
        places.retain(|p| *p < n);
        places.sort();
        places.dedup();
        let rules = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
        let list = |f: &dyn Fn(usize) -> String, by: &str| (0..n).map(f).collect::<Vec<_>>().join(by);
        cases.push((rules(&|i| format!("div {{ left: {i}px; }} ")), px("layout.left", n - 1)));
        cases.push((format!("div {{ {} }}", rules(&|i| format!("left: {i}px; "))), px("layout.left", n - 1)));
        for at in places {
            let only = |i: usize, yes: &str, no: String| if i == at { yes.to_string() } else { no };
            cases.push((rules(&|i| format!("{} {{ left: {i}px; }} ", only(i, "div", format!("p{i}")))), px("layout.left", at)));
            cases.push((rules(&|i| format!("{} {{ left: {i}px; }}", only(i, ".c", format!(".c{i}")))), px("layout.left", at)));
            cases.push((format!("{} {{ left: 5px; }}", list(&|i| only(i, "#i", format!("#i{i}")), ", ")), px("layout.left", 5)));
            cases.push((format!("{} {{ left: 5px; }}", list(&|i| only(i, "[a~=\"x\"]", format!("[a=\"{i}\"]")), ",")), px("layout.left", 5)));
            cases.push((format!("div {{ left: 5px; }} {} {{ left: 6px; }}", list(&|i| only(i, ".nosuch", [".c", ".d2", "#i", "[a]", "[b-1=z]"][i % 5].to_string()), "")), px("layout.left", 5)));
            cases.push((format!("div {{ {} }}", rules(&|i| only(i, "left: 5px; ", format!("x{i}: {i}px; ")))), px("layout.left", 5)));
            cases.push((format!("div {{ {} left: var(--v{at}); }}", rules(&|i| format!("--v{i}: {i}px; "))), px("layout.left", at)));
            cases.push((format!("{} div {{ left: 5px; }}", rules(&|i| format!("@keyframes k{i} {{ from {{ top: {i}px; }} to {{ top: {i}px; }} }} ")) + &format!("div {{ animation: 1s k{at}; }}")), vec![("layout.left", "Length(5.0)".to_string()), ("layout.top", format!("Length({at}.0)"))]));
            cases.push((format!("@keyframes k {{ from {{ {} }} to {{ {} }} }} div {{ animation: 1s k; }}", rules(&|i| only(i, "top: 3px; ", format!("x{i}: 1px; "))), rules(&|i| only(i, "top: 3px; ", format!("x{i}: 1px; ")))), px("layout.top", 3)));
            if at < 4 {
                let color = [(at + 1) as u8, 2, 3, 255];
                let aspect = ["bg0.color", "bg1.color", "bg2.color", "bg3.color"];
                let mut sets: Vec<(&str, String)> = (0..n.min(4)).map(|i| (aspect[i], format!("[{}, 2, 3, 255]", i + 1))).collect();
                sets[at].1 = format!("{color:?}");
                cases.push((format!("div {{ background-color: {}; }}", list(&|i| format!("rgb({}, 2, 3)", (i + 1) % 250), ", ")), sets));
            }
        }
        cases.push((format!("div{} {{ left: 5px; }}", list(&|i| [".c", ".d2", "#i", "[a]", "[b-1=z]", "[a~=y]"][i % 6].to_string(), "")), px("layout.left", 5)));
        cases.push((format!("{}div {{ left: 5px; }}", "/* a */".repeat(n)), px("layout.left", 5)));
        cases.push((format!("/*{}*/div {{ left: 5px; }}", " a * / b".repeat(n)), px("layout.left", 5)));
        cases.push((format!("div{b}{{{b}left{b}:{b}5px{b};{b}}}{b}", b = " \n\t".repeat(n)), px("layout.left", 5)));
        cases.push((format!("div{b}{{{b}left{b}:{b}5px{b};{b}}}{b}", b = "/**/".repeat(n)), px("layout.left", 5)));
        let long: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        cases.push((format!("div {{ background-image: url(\"{long}\"); }}"), vec![("bg0.image", format!("Some({long:?})"))]));
        cases.push((format!("div {{ font-family: \"{long}\"; }}"), vec![("font.family", format!("{long:?}"))]));
        cases.push((format!("div {{ --{long}: 5px; left: var(--{long}); }}"), px("layout.left", 5)));
        cases.push((format!("@keyframes {long} {{ from {{ top: 2px; }} to {{ top: 2px; }} }} div {{ animation: 1s {long}; }}"), px("layout.top", 2)));
        cases.push((format!("div {{ left: 5px; }} div.{long} {{ left: 6px; }} .c{long} {{ left: 7px; }} #i{long} {{ left: 7px; }} [a{long}] {{ left: 8px; }}"), px("layout.left", 5)));
        cases.push((format!("div {{ left: 1.5{}px; }}", "0".repeat(n)), vec![("layout.left", "Length(1.5)".to_string())]));
        // unclosed and unknown parts before
        cases.push((format!("{}div {{ left: 5px; }}", "p { x: f(1, \"s\"); } ".repeat(n)), px("layout.left", 5)));
    }
    // all declarations in one block
    let decls: Vec<Decl> = spread(1).into_iter().filter(|d| !d.css.contains("em")).collect();
    let initial = initial().unwrap();
    let blocks: Vec<Vec<Decl>> = (0..decls.len())
        .map(|first| {
            let mut list = decls.clone();
            list.rotate_left(first);
            if first % 2 == 1 {
                list.reverse();
            }
            list
        })
        .collect();
    let n = cases.len() as u64;
    Family::new("large", n + blocks.len() as u64, move |index, ctx| {
        let mut expected = initial.clone();
        if index >= n {
            let list = &blocks[(index - n) as usize];
            ctx.begin("all declarations");
            for d in list {
                set(&mut expected, d);
            }
            let css: Vec<&str> = list.iter().map(|d| d.css.as_str()).collect();
            return both(&css, false, &expected, ctx);
        }
        let (css, sets) = &cases[index as usize];
        ctx.begin("large");
        for (name, v) in sets {
            expected.iter_mut().find(|x| x.0 == *name).expect(name).1 = v.clone();
        }
        let mut v = view(PAGE, css).map_err(|e| format!("{e} for {css:?}"))?;
        for _ in 0..2 {
            Step::new(json!({})).time(0.25).run(&mut v)?;
        }
        let a = seen(&v.body().children()[0]);
        ctx.step(css, &written(&a));
        compare(&a, &expected).map_err(|e| format!("{e} for {css:?}"))
    })
}

// ---------------------------------------------------------------------------------------------
// whatever is given

const LIVE: &str = "<html><body><div id=\"i\" class=\"c\" @style=\"{s}\"><p>t</p></div></body></html>";

/// Creating and using a view may fail, but not crash or hang (the engine watches both).
fn survives(css: &str, ctx: &mut crate::engine::Ctx) {
    let mut seen = String::new();
    for inline in [false, true] {
        let (sheet, style) = if inline { ("div { color: red; }", css) } else { (css, "width: 5px;") };
        match view(LIVE, sheet) {
            Err(_) => seen.push_str("rejected"),
            Ok(mut view) => {
                for (s, time) in [(style, 0.0), (style, 0.3), ("", 0.3)] {
                    match Step::new(json!({"s": s})).events(vec![super::ui::to(1.0, 1.0)]).time(time).run(&mut view) {
                        Ok(_) => full(&view.body(), &mut seen),
                        Err(_) => seen.push_str("failed"),
                    }
                }
            }
        }
    }
    ctx.step(css, &seen);
}

const ALPHABET: [&str; 46] = [
    "{", "}", "(", ")", "[", "]", ":", ";", ",", ".", "#", "*", "=", "~", "+", ">", "\"", "'", " ", "\n", "/*", "*/", "@keyframes", "from", "50%", "var", "url",
    "rgba", "div", "width", "margin", "animation", "transition", "background", "--a", "red", "#fff", "0", "-", "1.5", "1px", "1s", "%", "é", "\\", "99999999999999999999999999999999999999999",
];

const FRAMES: [(&str, &str); 16] = [
    ("", ""),
    ("", " { width: 5px; }"),
    ("div { ", " }"),
    ("div { width: ", "; }"),
    ("div { margin: ", "; color: red; }"),
    ("div { background: ", "; }"),
    ("div { animation: ", "; }"),
    ("div { transition: ", "; } div:hover { width: 9px; }"),
    ("div { color: rgb(", "); }"),
    ("div { --a: ", "; width: var(--a); }"),
    ("div { width: var(", "); }"),
    ("@keyframes ", " { from { width: 1px; } } div { animation: 1s a; }"),
    ("@keyframes a { ", " { width: 1px; } } div { animation: 1s a; }"),
    ("@keyframes a { to { width: ", "; } } div { animation: 1s a; }"),
    ("[", "] { width: 5px; }"),
    ("width: 1px; ", "; height: 1px;"),
];

fn strings(length: usize) -> Family {
    let n = ALPHABET.len() as u64;
    let f = FRAMES.len() as u64;
    let block: usize = if length > 3 { 2 } else { 1 };
    Family::new(&format!("strings of {length}"), f * n.pow((length - block) as u32), move |index, ctx| {
        let (open, close) = FRAMES[(index % f) as usize];
        ctx.begin(open);
        let head: String = digits(index / f, n, length - block).into_iter().map(|i| ALPHABET[i]).collect();
        for last in 0..n.pow(block as u32) {
            let tail: String = digits(last, n, block).into_iter().map(|i| ALPHABET[i]).collect();
            survives(&format!("{open}{head}{tail}{close}"), ctx);
        }
        Ok(())
    })
}

/// Every property with every kind of value: nothing crashes.
fn any_value(thorough: bool) -> Family {
    const VALUES: [&str; 22] = [
        "0", "3px", "-1.5em", "50%", "7", "-0.5", "1s", "20ms", "red", "auto", "none", "solid", "infinite", "\"s\"", "#123456", "#12", "f()", "url(\"a\")",
        "rgb(1, 2)", "rgba(300, -5, 1%, 9)", "var(--a)", "99999999999999999999999999999999999999999px",
    ];
    let mut properties: Vec<&str> = vec![];
    for d in all() {
        if !properties.contains(&d.property) {
            properties.push(d.property);
        }
    }
    properties.extend([
        "animation", "animation-name", "animation-duration", "animation-delay", "animation-iteration-count", "animation-play-state", "animation-direction",
        "animation-fill-mode", "animation-timing-function", "transition", "transition-property", "transition-duration", "transition-delay",
        "transition-timing-function", "background-size", "background-repeat", "flex", "flex-flow", "box-shadow", "line-height", "object-fit", "z-index",
        "background-position-x", "background-position-y", "place-items", "order", "grid", "aspect-ratio", "all", "--a", "filter", "transform",
    ]);
    // single values are all tried, combinations start with fewer of them
    let v = VALUES.len() as u64;
    let some: &[&str] = if thorough { &VALUES } else { &["0", "3px", "50%", "7", "1s", "red", "\"s\"", "rgb(1, 2)", "var(--a)"] };
    let k = some.len() as u64;
    let (p, forms) = (properties.len() as u64, v + k * k * 2);
    Family::new(if thorough { "any three values" } else { "any value" }, p * forms, move |index, ctx| {
        let property = properties[(index % p) as usize];
        let form = index / p;
        let value = if form < v {
            VALUES[form as usize].to_string()
        } else {
            let form = form - v;
            let (a, b) = (some[(form / 2 / k) as usize], some[(form / 2 % k) as usize]);
            if form % 2 == 0 {
                format!("{a} {b}")
            } else {
                format!("{a}, {b}")
            }
        };
        ctx.begin(property);
        let decl = format!("{property}: {value};");
        survives(&format!("div {{ {decl} }} p {{ {decl} {decl} }}"), ctx);
        survives(&format!("@keyframes a {{ from {{ {decl} }} 50% {{ width: 5px; }} to {{ {decl} }} }} div {{ animation: 1s a; {decl} }}"), ctx);
        survives(&decl, ctx);
        if thorough {
            for more in VALUES.iter().step_by(2) {
                survives(&format!("div {{ {property}: {value} {more}; }}"), ctx);
                survives(&format!("div {{ {property}: {value} {more} {more}; transition: {property} 1s; }} div:hover {{ {property}: {more}; }}"), ctx);
            }
        }
        Ok(())
    })
}

const SAMPLES: [&str; 3] = [
    "/* a */ div.c > p[a=\"b\"], #i:hover { margin: 1px -2.5em 0 50%; color: rgba(1, 2, 3, 0.5); } p + p {}",
    "@keyframes k { from { width: 1px; } 50% { width: 20%; } to { width: 0; } } div { animation: 1s linear k infinite; --a: \"f\"; }",
    "div { background: url(\"a\") red; transition: width 1s, height 2s; width: var(--w, 5px); border: 1px solid #123456; }",
];

/// One or two small edits of proper sheets.
fn edits(twice: bool) -> Family {
    const PIECES: [&str; 22] = ["", "{", "}", "(", ")", "[", "]", ":", ";", ",", "\"", "/*", "*/", " ", "-", "0", ".", "%", "var(", "@", "s", "é"];
    let samples: Vec<Vec<char>> = SAMPLES.iter().map(|s| s.chars().collect()).collect();
    let total: u64 = samples.iter().map(|s| s.len() as u64 + 1).sum();
    let name = if twice { "two edits" } else { "one edit" };
    Family::new(name, total * PIECES.len() as u64 * 2, move |index, ctx| {
        let [replace, piece] = mixed(index, &[2, PIECES.len() as u64])[..] else { unreachable!() };
        let mut at = (index / (PIECES.len() as u64 * 2)) as usize;
        let mut sample = &samples[0];
        for s in &samples {
            sample = s;
            if at <= s.len() {
                break;
            }
            at -= s.len() + 1;
        }
        let edit = |s: &[char], at: usize, piece: &str, replace: usize| -> Vec<char> {
            let end = (at + replace).min(s.len());
            s[..at].iter().cloned().chain(piece.chars()).chain(s[end..].iter().cloned()).collect()
        };
        let once = edit(sample, at, PIECES[piece], replace);
        ctx.begin("edits");
        survives(&once.iter().collect::<String>(), ctx);
        if piece == 0 && replace == 0 {
            survives(&sample[..at].iter().collect::<String>(), ctx);
        }
        if twice {
            for other in at..once.len() {
                for piece in ["", "{", ";", ")", "\""] {
                    survives(&edit(&once, other, piece, 1).iter().collect::<String>(), ctx);
                }
            }
        }
        Ok(())
    })
}

/// The same piece over and over.
fn nesting() -> Family {
    let parts: Vec<(&str, &str, &str)> = vec![
        ("div { width: 1px; } ", "", ""),
        ("div {", " width: 1px; ", "}"),
        ("div, ", "p { width: 1px; }", ""),
        ("div > ", "p { width: 1px; }", ""),
        (".c", " { width: 1px; }", ""),
        ("[a", "", "]"),
        ("/*", "", "*/"),
        ("@keyframes a {", "", "}"),
        ("@keyframes a { ", "from { width: 1px; }", ""),
        ("(", "", ")"),
        ("\"", "", ""),
        ("-", "", ""),
        ("width: 1px; ", "", ""),
        ("--a: var(--a); width: var(--a); ", "", ""),
    ];
    let values: Vec<(&str, &str, &str)> = vec![
        ("f(", "", ")"),
        ("f(", "1px", ")"),
        ("f(", "1px", ""),
        ("f(a, ", "1px", ", b)"),
        ("rgb(", "1, 2, 3", ")"),
        ("var(", "--a", ")"),
        ("var(--a, ", "1px", ")"),
        ("var(--a, ", "1px", ""),
        ("var(--a,", "", ""),
        ("f(var(--a, ", "1px", "))"),
        ("f(var(--a, ", "1px", ""),
        ("1px ", "1px", ""),
        ("1px, ", "1px", ""),
        ("var(--a) ", "var(--a)", ""),
        ("\"", "", ""),
        ("1", "px", ""),
        ("-", "1px", ""),
        ("1.", "px", ""),
        ("/**/ ", "1px", ""),
    ];
    const COUNTS: [usize; 9] = [1, 2, 3, 5, 8, 20, 30, 50, 100];
    let frames = 1 + 4u64;
    let n = parts.len() as u64 + values.len() as u64 * 4;
    let _ = frames;
    Family::new("nesting", n * COUNTS.len() as u64, move |index, ctx| {
        let c = COUNTS[(index % COUNTS.len() as u64) as usize];
        let i = (index / COUNTS.len() as u64) as usize;
        let grow = |(a, b, z): (&str, &str, &str)| format!("{}{b}{}", a.repeat(c), z.repeat(c));
        let css = if i < parts.len() {
            grow(parts[i])
        } else {
            let i = i - parts.len();
            let v = grow(values[i / 4]);
            match i % 4 {
                0 => format!("div {{ width: {v}; }}"),
                1 => format!("div {{ --a: {v}; width: var(--a); background: var(--a); }}"),
                2 => format!("@keyframes a {{ from {{ width: {v}; }} }} div {{ animation: 1s a; --a: 3px; }}"),
                _ => format!("width: {v};"),
            }
        };
        ctx.begin("nesting");
        survives(&css, ctx);
        Ok(())
    })
}

pub fn plan(thorough: bool) -> Plan {
    let mut families = vec![
        every_declaration(),
        pairs(thorough),
        useless(thorough),
        numbers(),
        colors(),
        channels(),
        times(),
        steps(),
        literals(if thorough { 4 } else { 3 }),
        selectors(thorough),
        keyframes(),
        redefined(),
        names(if thorough { 6 } else { 4 }),
        variables(),
        large(),
        strings(1),
        strings(2),
        edits(false),
        nesting(),
        any_value(false),
    ];
    if thorough {
        families.push(strings(3));
        families.push(edits(true));
        families.push(any_value(true));
    }
    (
        families,
        assumed(&[
            "every declaration ends with a semicolon, strings are in double quotes",
            "numbers are written with digits, a minus sign and a fraction, without leading zeros",
            "functions take single values separated by commas",
            "calc(), !important, slashes and at-rules other than keyframes are not supported",
            "parentheses and braces are nested up to 100 deep",
        ]),
    )
}
