use super::*;
use bumaga::{Fragment, HandlerArgument};

/// Places of the markup where the writer has a choice.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Gap {
    /// around the document
    Doc,
    /// between siblings, behind start tags and before end tags
    Between,
    /// before an attribute
    Attr,
    /// around the equals sign
    Eq,
    /// before the end of a tag
    End,
    /// end of a void element
    Void,
    /// inside of braces
    Brace,
    /// between the parts of a handler or a repeat
    Part,
    /// around the parts of a handler or a repeat
    Edge,
    /// between words of a text
    Word,
}

const GAPS: [Gap; 10] = [
    Gap::Doc,
    Gap::Between,
    Gap::Attr,
    Gap::Eq,
    Gap::End,
    Gap::Void,
    Gap::Brace,
    Gap::Part,
    Gap::Edge,
    Gap::Word,
];

fn variants(g: Gap) -> &'static [&'static str] {
    match g {
        Gap::Doc => &["", "\n", " <!-- a <b> \" -->\n", "\r\n\t"],
        Gap::Between => &["", "\n", "\r\n    ", "<!-- c -->", " \n<!-- <p> {x} \" -- > -->\n\t"],
        Gap::Attr => &[" ", "\n", "\t  ", "\r\n    "],
        Gap::Eq => &["", " ", "\n"],
        Gap::End => &["", " ", "\r\n"],
        Gap::Void => &["/>", ">", " />", "\n>"],
        Gap::Brace => &["", " ", "\n\t"],
        Gap::Part => &[" ", "\n", "   \t"],
        Gap::Edge => &["", " ", "\n  "],
        Gap::Word => &[" ", "\n", "\n      ", "\r\n\t"],
    }
}

#[derive(Clone, Debug)]
enum Tok {
    Lit(String),
    Gap(Gap),
    /// value of an attribute: quoted, or without quotes where that is possible
    Value(String),
}

fn lit(out: &mut Vec<Tok>, s: &str) {
    out.push(Tok::Lit(s.to_string()));
}

fn path(p: &P, out: &mut Vec<Tok>) {
    lit(out, "{");
    out.push(Tok::Gap(Gap::Brace));
    lit(out, &p.keys.join("."));
    for pipe in &p.pipes {
        out.push(Tok::Gap(Gap::Brace));
        lit(out, "|");
        out.push(Tok::Gap(Gap::Brace));
        lit(out, pipe);
    }
    out.push(Tok::Gap(Gap::Brace));
    lit(out, "}");
}

fn words(s: &str, out: &mut Vec<Tok>) {
    for (i, w) in s.split(' ').enumerate() {
        if i > 0 {
            out.push(Tok::Gap(Gap::Word));
        }
        lit(out, w);
    }
}

fn tokens(t: &T, out: &mut Vec<Tok>) {
    match t {
        T::Text(s) => {
            for s in s {
                match s {
                    Span::S(s) => words(s, out),
                    Span::B(p) => path(p, out),
                }
            }
        }
        T::Link(name, attrs) => element("link", &[vec![at("href", &format!("#{name}"))], attrs.clone()].concat(), &[], out),
        T::El(tag, attrs, kids) => element(tag, attrs, kids, out),
    }
}

fn element(tag: &str, attrs: &[A], kids: &[T], out: &mut Vec<Tok>) {
    lit(out, &format!("<{tag}"));
    let eq = |out: &mut Vec<Tok>| {
        out.push(Tok::Gap(Gap::Eq));
        lit(out, "=");
        out.push(Tok::Gap(Gap::Eq));
    };
    for a in attrs {
        out.push(Tok::Gap(Gap::Attr));
        match a {
            A::Static(k, v) => {
                lit(out, k);
                out.push(Tok::Value(v.clone()));
            }
            A::Bind(k, s) => {
                lit(out, &format!("@{k}"));
                eq(out);
                lit(out, "\"");
                for s in s {
                    match s {
                        Span::S(s) => lit(out, s),
                        Span::B(p) => path(p, out),
                    }
                }
                lit(out, "\"");
            }
            A::Flag(k, p) | A::Alias(k, p) => {
                lit(out, &format!("{}{k}", if matches!(a, A::Flag(..)) { "#" } else { "+" }));
                eq(out);
                lit(out, "\"");
                out.push(Tok::Gap(Gap::Edge));
                path(p, out);
                out.push(Tok::Gap(Gap::Edge));
                lit(out, "\"");
            }
            A::Vis(v, p) => {
                lit(out, if *v { "?" } else { "!" });
                eq(out);
                lit(out, "\"");
                out.push(Tok::Gap(Gap::Edge));
                path(p, out);
                out.push(Tok::Gap(Gap::Edge));
                lit(out, "\"");
            }
            A::Repeat(k, n, p) => {
                lit(out, &format!("*{k}"));
                eq(out);
                lit(out, "\"");
                out.push(Tok::Gap(Gap::Edge));
                lit(out, &n.to_string());
                out.push(Tok::Gap(Gap::Part));
                path(p, out);
                out.push(Tok::Gap(Gap::Edge));
                lit(out, "\"");
            }
            A::On(k, args) => {
                lit(out, &format!("^{k}"));
                eq(out);
                lit(out, "\"");
                out.push(Tok::Gap(Gap::Edge));
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        out.push(Tok::Gap(Gap::Part));
                    }
                    match a {
                        Arg::Key(k) => lit(out, k),
                        Arg::Event => lit(out, "$event"),
                        Arg::B(p) => path(p, out),
                    }
                }
                out.push(Tok::Gap(Gap::Edge));
                lit(out, "\"");
            }
        }
    }
    if VOID.contains(&tag) {
        out.push(Tok::Gap(Gap::Void));
        return;
    }
    out.push(Tok::Gap(Gap::End));
    lit(out, ">");
    out.push(Tok::Gap(Gap::Between));
    for k in kids {
        tokens(k, out);
        out.push(Tok::Gap(Gap::Between));
    }
    lit(out, &format!("</{tag}"));
    out.push(Tok::Gap(Gap::End));
    lit(out, ">");
}

fn document(doc: &Doc) -> Vec<Tok> {
    let mut out = vec![Tok::Gap(Gap::Doc)];
    let mut kids = vec![];
    for (name, t) in &doc.templates {
        kids.push(el("template", vec![at("id", name)], vec![t.clone()]));
    }
    kids.push(el("body", vec![], doc.body.clone()));
    element("html", &[], &kids, &mut out);
    out.push(Tok::Gap(Gap::Doc));
    out
}

/// How a document is written: the variant of every kind of gap, and of one gap in particular.
struct Layout {
    kinds: [usize; 10],
    one: Option<(usize, usize)>,
    bare: bool,
}

fn write(tokens: &[Tok], layout: &Layout) -> String {
    let mut s = String::new();
    for (i, t) in tokens.iter().enumerate() {
        match t {
            Tok::Lit(l) => s.push_str(l),
            Tok::Value(v) => {
                let bare = layout.bare && !v.contains(|c: char| " \t\r\n\"'=<>`/".contains(c));
                if bare && v.is_empty() {
                    continue;
                }
                if bare {
                    s.push_str(&format!("={v} "));
                } else {
                    let eq = variants(Gap::Eq)[layout.kinds[3]];
                    s.push_str(&format!("{eq}={eq}\"{v}\""));
                }
            }
            Tok::Gap(g) => {
                let kind = GAPS.iter().position(|k| k == g).unwrap();
                let mut v = layout.kinds[kind];
                if let Some((at, variant)) = layout.one {
                    if at == i {
                        v = variant;
                    }
                }
                s.push_str(variants(*g)[v]);
            }
        }
    }
    s
}

/// Every layout which differs from the plain one in one kind, one gap, or everywhere.
fn layouts(tokens: &[Tok]) -> Vec<Layout> {
    let plain = || Layout { kinds: [0; 10], one: None, bare: false };
    let mut out = vec![plain(), Layout { bare: true, ..plain() }];
    for (k, g) in GAPS.iter().enumerate() {
        for v in 1..variants(*g).len() {
            let mut l = plain();
            l.kinds[k] = v;
            out.push(l);
        }
    }
    for v in 1..5 {
        for bare in [false, true] {
            let mut l = plain();
            l.bare = bare;
            for (k, g) in GAPS.iter().enumerate() {
                l.kinds[k] = v.min(variants(*g).len() - 1);
            }
            out.push(l);
        }
    }
    for (i, t) in tokens.iter().enumerate() {
        if let Tok::Gap(g) = t {
            for v in 1..variants(*g).len() {
                out.push(Layout { one: Some((i, v)), ..plain() });
            }
        }
    }
    out
}

/// Texts up to the white space around them, and the shapes of handlers.
fn compare(f: &Fragment, n: &Node, path: &str) -> Result<(), String> {
    match (text_of(f), &n.text) {
        (Some(a), Some(b)) => {
            return if a.trim() == b.trim() { Ok(()) } else { Err(format!("{path}: text is {a:?}, expected {b:?}")) }
        }
        (None, None) => {}
        (a, b) => return Err(format!("{path}: text is {a:?}, expected {b:?}")),
    }
    if f.tag != n.tag {
        return Err(format!("{path}: tag is {:?}, expected {:?}", f.tag, n.tag));
    }
    if f.attrs.len() != n.attrs.len() || n.attrs.iter().any(|(k, v)| f.attrs.get(k) != Some(v)) {
        let seen: std::collections::BTreeMap<_, _> = f.attrs.iter().collect();
        return Err(format!("{path}: attributes are {seen:?}, expected {:?}", n.attrs));
    }
    let mut handlers: Vec<(String, String)> = f
        .listeners
        .iter()
        .map(|(k, h)| {
            let args: Vec<String> = h
                .arguments
                .iter()
                .map(|a| match a {
                    HandlerArgument::Keyword(k) => k.clone(),
                    HandlerArgument::Event => "$event".to_string(),
                    HandlerArgument::Binder { pipe, .. } => format!("value {}", pipe.len()),
                })
                .collect();
            (k.clone(), args.join(","))
        })
        .collect();
    handlers.sort();
    let mut expected: Vec<(String, String)> = n
        .handlers
        .iter()
        .map(|(k, args)| {
            let args: Vec<String> = args
                .iter()
                .map(|a| match a {
                    Val::Key(k) => k.clone(),
                    Val::Event => "$event".to_string(),
                    // the number of pipes
                    Val::V(v) => format!("value {}", if v.as_str().is_some_and(|v| v.starts_with('<')) { 1 } else { 0 }),
                })
                .collect();
            (k.clone(), args.join(","))
        })
        .collect();
    expected.sort();
    if handlers != expected {
        return Err(format!("{path}: handlers are {handlers:?}, expected {expected:?}"));
    }
    if n.tag == "img" {
        return Ok(());
    }
    let kids = f.children();
    if kids.len() != n.kids.len() {
        return Err(format!(
            "{path}: children {:?}, expected {:?}",
            kids.iter().map(seen_tree).collect::<Vec<_>>(),
            n.kids.iter().map(brief).collect::<Vec<_>>()
        ));
    }
    for (i, (a, b)) in kids.iter().zip(&n.kids).enumerate() {
        compare(a, b, &format!("{path}/{i}{}", b.tag))?;
    }
    Ok(())
}

fn value() -> Value {
    json!({"x": "x", "y": {"z": "z"}, "l": ["k", "m"], "t": true})
}

fn read_back(doc: &Doc, html: &str, ctx: &mut crate::engine::Ctx) -> Result<(), String> {
    let value = value();
    let mut view = view(html, "").map_err(|e| format!("{e} for {html:?}"))?;
    Step::new(value.clone()).run(&mut view)?;
    let expected = Reference { root: &value, translate: &|s| s.to_string() }.body(doc);
    ctx.step(html, &seen_tree(&view.body()));
    compare(&view.body(), &expected, "body").map_err(|e| format!("{e} for {html:?}"))
}

/// Every document in every layout.
fn round_trips(name: &str, count: u64, doc: impl Fn(u64) -> Option<Doc> + Send + Sync + 'static) -> Family {
    Family::new(name, count, move |index, ctx| {
        let Some(doc) = doc(index) else { return Ok(()) };
        ctx.begin(&doc.html());
        let tokens = document(&doc);
        for layout in layouts(&tokens) {
            read_back(&doc, &write(&tokens, &layout), ctx)?;
        }
        Ok(())
    })
}

const TAGS: [&str; 16] = [
    "p", "h1", "br", "img", "input", "colgroup", "brx", "hr-x", "links", "metadata", "a", "x-y", "col", "B", "basement", "wbr",
];

fn attributes() -> Vec<Vec<A>> {
    vec![
        vec![],
        vec![at("a", "v")],
        vec![at("a", "")],
        vec![at("a", " v  w "), at("b-c", "{x}")],
        vec![at("a", "1 > 2 < 3 & <p> 'q' = / @b")],
        vec![at("data-é", "ü"), at("Q", "a.b/c?d=e#f")],
        vec![bind("a", "{x}"), at("hidden", "")],
        vec![bind("a", " v {x}  {y.z | wrap} w ")],
        vec![bind("a", "{x}{x | wrap | neg}"), flag("b", "t"), flag("c", "t | neg")],
        vec![on("onclick", "a $event {x} {x | wrap}"), on("onfocus", "k-1"), at("z", "0")],
        vec![alias("x", "y.z"), bind("a", "{x}"), at("onclick", "f()")],
        vec![bind("a", "{y.z}/> -- \\ 'é'"), at("b", "=")],
    ]
}

fn controls() -> Vec<A> {
    vec![repeat("x", 12, "l"), repeat("_", 1, "l | rev"), when("t"), unless("t | neg"), alias("x", "y.z")]
}

const TEXTS: [&str; 9] = ["t", "a b", "{x}", "a b {y.z} c", "{x} {y.z | wrap}", "1 > 0 = 1 & é 'q' \"r\" / } ;", "<!-- no -->", "a {x}{x}, b", "x-y_z: {l} / {t | neg}!"];

fn texts() -> Vec<T> {
    TEXTS.iter().filter(|t| !t.starts_with('<')).map(|t| text(t)).collect()
}

/// One element with all its attributes, around and next to one other thing.
fn pairs() -> Vec<Doc> {
    let mut out = vec![];
    let mut others: Vec<Option<T>> = texts().into_iter().map(Some).collect();
    others.push(None);
    for tag in ["p", "br", "colgroup", "img", "x-y"] {
        others.push(Some(el(tag, vec![at("a", "1")], vec![])));
    }
    for tag in TAGS {
        for a in attributes() {
            for o in &others {
                let other: Vec<T> = o.iter().cloned().collect();
                out.push(Doc::new([vec![el(tag, a.clone(), vec![])], other.clone()].concat()));
                out.push(Doc::new([other.clone(), vec![el(tag, a.clone(), vec![])]].concat()));
                if !VOID.contains(&tag) {
                    out.push(Doc::new(vec![el(tag, a.clone(), other)]));
                }
            }
        }
    }
    for control in controls() {
        for a in attributes() {
            for o in &others {
                let a = [a.clone(), vec![control.clone()]].concat();
                out.push(Doc::new(vec![el("p", a, o.iter().cloned().collect())]));
            }
        }
    }
    for a in attributes() {
        for t in texts() {
            let content = el("p", a.clone(), vec![t.clone()]);
            out.push(Doc { templates: vec![("m-1".to_string(), content.clone())], body: vec![link("m-1", vec![])] });
            out.push(Doc {
                templates: vec![("m".to_string(), el("i", vec![], vec![t.clone()])), ("n".to_string(), content)],
                body: vec![el("p", vec![], vec![link("m", a.clone()), link("n", vec![repeat("x", 2, "l")])])],
            });
        }
    }
    out
}

/// All forests with up to `n` nodes over a few labels.
fn forests(n: usize) -> Vec<Vec<T>> {
    fn grow(n: usize) -> Vec<(usize, Vec<T>)> {
        // forests of exactly 0..=n nodes
        let mut out: Vec<(usize, Vec<T>)> = vec![(0, vec![])];
        if n == 0 {
            return out;
        }
        // first tree and the rest
        for (k, kids) in grow(n - 1) {
            for tag in ["p", "brx"] {
                for (r, rest) in grow(n - 1 - k) {
                    let mut f = vec![el(tag, vec![], kids.clone())];
                    f.extend(rest);
                    out.push((1 + k + r, f));
                }
            }
        }
        for (r, rest) in grow(n - 1) {
            for leaf in [el("br", vec![at("a", "b")], vec![]), text("a b"), text("{x}")] {
                if matches!((&leaf, rest.first()), (T::Text(_), Some(T::Text(_)))) {
                    continue;
                }
                let mut f = vec![leaf];
                f.extend(rest.clone());
                out.push((1 + r, f));
            }
        }
        out
    }
    grow(n).into_iter().map(|f| f.1).collect()
}

/// Parts which have no effect, and whole documents.
fn heads() -> Family {
    let before = [
        "",
        "<meta charset=\"UTF-8\">",
        "<head><title>a b</title></head>",
        "<link href=\"style.css\" rel=\"stylesheet\">",
        "<script>if (a < b && c > \"d\") { e(); } // </p> {</script>",
        "<template id=\"u\"><p>never</p></template>",
        "<!-- <body> -->",
        "<template id=\"v\"></template>",
        "<template><p></p></template>",
    ];
    let n = before.len() as u64;
    Family::new("documents", n * n * 4 * 3 * 3, move |index, ctx| {
        let [a, b, html, body, inner] = mixed(index, &[n, n, 4, 3, 3])[..] else { unreachable!() };
        let (open, close) = [
            ("<html>", "</html>"),
            ("<html lang=\"en\">\n", "\n</html>\n"),
            ("<!-- a --><html lang=en >", "</html >"),
            ("\n<html>\t", "</html><!-- b -->"),
        ][html];
        let attrs = ["", " class=\"c d\"", " @class=\"{x}\" id=b "][body];
        let script = ["", "<script>let a = \"</p>\"; { a < 1 }</script>", "\n<script>\n</script>\n"][inner];
        let html = format!("{open}{}\n{}<body{attrs}><p>t</p>{script}<q></q></body>{close}", before[a], before[b]);
        ctx.begin("documents");
        let mut kids = vec![el("p", vec![], vec![text("t")]), el("q", vec![], vec![])];
        if !script.is_empty() {
            kids.insert(1, el("script", vec![], vec![]));
        }
        let value = value();
        let mut view = view(&html, "").map_err(|e| format!("{e} for {html:?}"))?;
        Step::new(value.clone()).run(&mut view)?;
        let mut expected = Reference { root: &value, translate: &|s| s.to_string() }.body(&Doc::new(kids));
        let attrs = match body {
            0 => vec![],
            1 => vec![("class", "c d")],
            _ => vec![("class", "x"), ("id", "b")],
        };
        expected.attrs = attrs.into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        ctx.step(&html, &seen_tree(&view.body()));
        compare(&view.body(), &expected, "body").map_err(|e| format!("{e} for {html:?}"))
    })
}

// ---------------------------------------------------------------------------------------------
// whatever is given

fn events() -> Vec<bumaga::InputEvent> {
    use super::ui::*;
    vec![to(1.0, 1.0), left_down(), char_in(), left_up()]
}

/// Creating and using a view may fail, but not crash or hang (the engine watches both).
fn survives(html: &str, ctx: &mut crate::engine::Ctx) {
    let seen = match view(html, "p { width: 5px; height: 5px; }") {
        Err(_) => "rejected".to_string(),
        Ok(mut view) => {
            let mut s = String::new();
            for value in [value(), json!(null)] {
                match Step::new(value).events(events()).run(&mut view) {
                    Ok(_) => write_tree(&view.body(), &mut s),
                    Err(_) => s.push_str("failed"),
                }
            }
            s
        }
    };
    ctx.step(html, &seen);
}

const ALPHABET: [&str; 44] = [
    "<", ">", "</", "/>", "/", "p", "br", "img", "body", "html", "template", "link", "script", "id", "href", "src", "class", "style", "=", "\"", "'", " ",
    "\n", "{", "}", "x", "|", ".", ":", "@", "#", "*", "+", "^", "?", "!", "2", "99999999999999999999", "$event", "<!--", "-->", "\\", "é", "\u{0}",
];

const FRAMES: [(&str, &str); 14] = [
    ("", ""),
    ("<html><body>", "</body></html>"),
    ("<html><body><p>", "</p></body></html>"),
    ("<html><body><p ", ">t</p></body></html>"),
    ("<html><body><", "></body></html>"),
    ("<html><body><p a=\"", "\">t</p></body></html>"),
    ("<html><body><p @a=\"", "\">t</p></body></html>"),
    ("<html><body><p>{", "}</p></body></html>"),
    ("<html><body><p ^onclick=\"", "\">t</p></body></html>"),
    ("<html><body><p *i=\"", "\">t{i}</p></body></html>"),
    ("<html><body><p ?=\"", "\">t</p></body></html>"),
    ("<html><body><p @style=\"", "\">t</p></body></html>"),
    ("<html><template id=\"t\">", "</template><body><link href=\"#t\"/></body></html>"),
    ("<html><body><p>t</p>", ""),
];

fn strings(length: usize) -> Family {
    let n = ALPHABET.len() as u64;
    let f = FRAMES.len() as u64;
    let block: usize = if length > 3 { 2 } else { 1 };
    // the last tokens vary inside of a case
    Family::new(&format!("strings of {length}"), f * n.pow((length - block) as u32), move |index, ctx| {
        let (open, close) = FRAMES[(index % f) as usize];
        ctx.begin(open);
        let head: String = digits(index / f, n, length - block).into_iter().map(|i| ALPHABET[i]).collect();
        for last in 0..n.pow(block as u32) {
            let tail: String = digits(last, n, block).into_iter().map(|i| ALPHABET[i]).collect();
            survives(&format!("{open}{head}{tail}{close}"), ctx);
        }
        Ok(())
    })
}

fn samples() -> Vec<String> {
    let t = vec![
        ("m".to_string(), el("p", vec![bind("a", "{x} b"), flag("c", "t")], vec![text("{y.z | wrap} u"), el("br", vec![], vec![])])),
        ("n".to_string(), link("m", vec![alias("x", "y")])),
    ];
    let docs = [
        Doc {
            templates: t,
            body: vec![link("m", vec![repeat("x", 2, "l")]), link("n", vec![when("x")]), el("p", vec![unless("t"), at("id", "i")], vec![])],
        },
        Doc::new(vec![
            el("p", vec![on("onclick", "a $event {x | len}"), bind("style", "width: {x}px;")], vec![text("a {x} b")]),
            el("img", vec![bind("src", "{x}"), at("alt", "a b")], vec![]),
        ]),
    ];
    docs.iter().map(|d| d.html()).collect()
}

/// One or two small edits of proper documents.
fn edits(twice: bool) -> Family {
    const PIECES: [&str; 20] = ["", "<", ">", "/", "\"", "=", "{", "}", "|", ".", " ", "x", "@", "#", "*", "^", "<!--", "-->", "</p>", "é"];
    let samples: Vec<Vec<char>> = samples().iter().map(|s| s.chars().collect()).collect();
    let total: u64 = samples.iter().map(|s| s.len() as u64 + 1).sum();
    let name = if twice { "two edits" } else { "one edit" };
    Family::new(name, total * PIECES.len() as u64 * 2, move |index, ctx| {
        let [replace, piece] = mixed(index, &[2, PIECES.len() as u64])[..] else { unreachable!() };
        let mut at = (index / (PIECES.len() as u64 * 2)) as usize;
        let mut sample = &samples[0];
        for s in &samples {
            sample = s;
            if at <= s.len() {
                break;
            }
            at -= s.len() + 1;
        }
        let edit = |s: &[char], at: usize, piece: &str, replace: usize| -> Vec<char> {
            let end = (at + replace).min(s.len());
            s[..at].iter().cloned().chain(piece.chars()).chain(s[end..].iter().cloned()).collect()
        };
        let once = edit(sample, at, PIECES[piece], replace);
        ctx.begin("edits");
        survives(&once.iter().collect::<String>(), ctx);
        // the beginning only
        if piece == 0 && replace == 0 {
            survives(&sample[..at].iter().collect::<String>(), ctx);
        }
        if twice {
            for other in at..once.len() {
                for piece in ["", "<", ">", "\"", "{", "}", " "] {
                    survives(&edit(&once, other, piece, 1).iter().collect::<String>(), ctx);
                }
            }
        }
        Ok(())
    })
}

/// The same piece over and over.
fn nesting() -> Family {
    let parts: Vec<(&str, &str, &str)> = vec![
        ("<p>", "t", "</p>"),
        ("<p a=\"b\">", "", "</p>"),
        ("<p>", "", ""),
        ("", "", "</p>"),
        ("<br>", "", ""),
        ("{x}", "", ""),
        ("{", "x", "}"),
        ("{x|", "x", "}"),
        ("<!--", "", "-->"),
        ("<p +x=\"{y}\">", "{x}", "</p>"),
        ("<p +x=\"{x.x}\">", "{x}", "</p>"),
        ("<p ?=\"{t}\">", "t", "</p>"),
        ("<link href=\"#t\"/>", "", ""),
        ("<p", "", ">"),
        ("\"", "", ""),
        ("<", "", ">"),
    ];
    const COUNTS: [usize; 8] = [1, 2, 3, 5, 8, 20, 50, 100];
    Family::new("nesting", (parts.len() * COUNTS.len() * 3) as u64, move |index, ctx| {
        let [p, c, frame] = mixed(index, &[parts.len() as u64, COUNTS.len() as u64, 3])[..] else { unreachable!() };
        let (a, b, z) = parts[p];
        let s = format!("{}{b}{}", a.repeat(COUNTS[c]), z.repeat(COUNTS[c]));
        let html = match frame {
            0 => s,
            1 => format!("<html><body>{s}</body></html>"),
            _ => format!("<html><template id=\"t\">{s}</template><body><link href=\"#t\"/></body></html>"),
        };
        ctx.begin("nesting");
        survives(&html, ctx);
        Ok(())
    })
}

/// Templates which use each other.
fn recursion() -> Family {
    const NAMES: [&str; 3] = ["a", "b", "c"];
    // every template uses none, one or two of the templates
    let mut uses: Vec<Vec<&str>> = vec![vec![]];
    for a in NAMES {
        uses.push(vec![a]);
        for b in NAMES {
            uses.push(vec![a, b]);
        }
    }
    let n = uses.len() as u64;
    Family::new("templates using templates", n.pow(3) * 3, move |index, ctx| {
        let d = mixed(index, &[n, n, n, 3]);
        let links = |names: &[&str]| names.iter().map(|n| format!("<link href=\"#{n}\"/>")).collect::<String>();
        let mut html = "<html>".to_string();
        let mut cyclic = false;
        for (i, name) in NAMES.iter().enumerate() {
            let content = links(&uses[d[i]]);
            html.push_str(&match d[3] {
                0 => format!("<template id=\"{name}\"><p>{name}{content}</p></template>"),
                1 => format!("<template id=\"{name}\"><p *i=\"2 {{l}}\">{content}</p></template>"),
                _ => format!("<template id=\"{name}\">{content}</template>"),
            });
        }
        // reachable from a
        let mut seen = vec![vec![0usize]];
        while let Some(way) = seen.pop() {
            for u in &uses[d[*way.last().unwrap()]] {
                let next = NAMES.iter().position(|n| n == u).unwrap();
                if way.contains(&next) {
                    cyclic = true;
                } else {
                    let mut way = way.clone();
                    way.push(next);
                    seen.push(way);
                }
            }
        }
        html.push_str("<body><link href=\"#a\"/></body></html>");
        ctx.begin("recursion");
        survives(&html, ctx);
        if !cyclic && d[3] == 0 {
            let templates = NAMES
                .iter()
                .enumerate()
                .map(|(i, n)| (n.to_string(), el("p", vec![], [vec![text(n)], uses[d[i]].iter().map(|u| link(u, vec![])).collect()].concat())))
                .collect();
            let doc = Doc { templates, body: vec![link("a", vec![])] };
            read_back(&doc, &html, ctx)?;
        }
        Ok(())
    })
}

/// All short texts and attribute values over characters which are something else at other places.
fn characters(length: usize) -> Family {
    const PARTS: [&str; 26] = [
        "a", "b c", " ", "  ", "\n", "\u{a0}", "\u{2003}", "é", "中", "😀", ">", "}", "\"", "'", "/", "&amp;", "=", "-->", "$event", "|", ";", "\u{301}", "{x}",
        "{ y.z | wrap }", "\\", "\\u0041",
    ];
    const BLANK: [char; 4] = [' ', '\n', '\t', '\r'];
    let n = PARTS.len() as u64;
    Family::new("characters", n.pow(length as u32), move |index, ctx| {
        let parts: Vec<&str> = digits(index, n, length).into_iter().map(|i| PARTS[i]).collect();
        let blank = |p: &str| p.trim().is_empty();
        if parts.windows(2).any(|p| blank(p[0]) && blank(p[1]) && p.contains(&"\n")) {
            return Ok(());
        }
        let source = parts.concat();
        ctx.begin("characters");
        let value = json!({"x": "X", "y": {"z": " Y "}});
        let shown = |s: &str| s.replace("{x}", "X").replace("{ y.z | wrap }", "< Y >");
        if !source.trim_matches(BLANK).is_empty() {
            let places = [("<p>", "</p>"), ("<p>", "<b></b></p>"), ("<p><b></b>", "</p>"), ("<p><i></i>", "<b></b></p>")];
            for (open, close) in places {
                let html = format!("<html><body>{open}{source}{close}</body></html>");
                let mut v = view(&html, "").map_err(|e| format!("{e} for {html:?}"))?;
                Step::new(value.clone()).run(&mut v)?;
                let body = v.body();
                let inside = body.children();
                let p = &inside[0];
                let kids = p.children();
                let texts: Vec<String> = kids.iter().filter_map(text_of).collect();
                ctx.step(&html, &format!("{texts:?}"));
                let expected = shown(&source).replace('\n', " ");
                if texts.len() != 1 || texts[0].trim_matches(BLANK) != expected.trim_matches(BLANK) {
                    return Err(format!("texts are {texts:?}, expected {expected:?} for {html:?}"));
                }
                let at = kids.iter().position(|k| k.text.is_some()).unwrap();
                let before = open.contains("</") as usize;
                if at != before || kids.len() != open.contains("</") as usize + close.contains("</b>") as usize + 1 {
                    return Err(format!("the text is child {at} of {} for {html:?}", kids.len()));
                }
            }
        }
        if source.contains('"') {
            return Ok(());
        }
        for (name, expected) in [("a", source.clone()), ("@a", shown(&source))] {
            if name == "a" && source.ends_with('\\') {
                // reads like an escaped quote
                continue;
            }
            let html = format!("<html><body><p {name}=\"{source}\" b=\"c\"></p></body></html>");
            let mut v = view(&html, "").map_err(|e| format!("{e} for {html:?}"))?;
            Step::new(value.clone()).run(&mut v)?;
            let body = v.body();
            let inside = body.children();
            let p = &inside[0];
            let (a, b) = (p.attrs.get("a").cloned(), p.attrs.get("b").cloned());
            ctx.step(&html, &format!("{a:?} {b:?}"));
            if a.as_deref() != Some(&expected) || b.as_deref() != Some("c") || p.attrs.len() != 2 {
                return Err(format!("attributes a and b are {a:?} and {b:?}, expected {expected:?} and \"c\" for {html:?}"));
            }
        }
        Ok(())
    })
}

/// Every void element, and elements whose names begin or end like those.
fn voids() -> Family {
    const TAGS: [&str; 24] = [
        "area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link", "meta", "param", "source", "track",
        "wbr", "b", "h", "i", "im", "in", "l", "t", "w",
    ];
    const ENDS: [&str; 5] = ["", "x", "-", "1", "-br"];
    const FORMS: [&str; 6] = [">", "/>", " />", " a=\"b\">", " a=b />", " a b=\"c\"/>"];
    let n = (TAGS.len() * ENDS.len() * FORMS.len()) as u64;
    Family::new("void elements", n, move |index, ctx| {
        let [t, e, f] = mixed(index, &[TAGS.len() as u64, ENDS.len() as u64, FORMS.len() as u64])[..] else { unreachable!() };
        let void = t < 16 && e == 0;
        let tag = format!("{}{}", TAGS[t], ENDS[e]);
        let form = FORMS[f];
        if !void && form.contains('/') {
            return Ok(());
        }
        let close = if void { String::new() } else { format!("<i></i></{tag}>") };
        let html = format!("<html><body><p><{tag}{form}{close}<b></b>x</p><u></u></body></html>");
        ctx.begin("void elements");
        let mut view = view(&html, "")?;
        Step::new(json!({})).run(&mut view)?;
        let attrs = match f {
            3 | 4 => vec![("a", "b")],
            5 => vec![("a", ""), ("b", "c")],
            _ => vec![],
        };
        fn brief(f: &Fragment) -> String {
            let mut attrs: Vec<String> = f.attrs.iter().map(|(k, v)| format!(" {k}={v:?}")).collect();
            attrs.sort();
            let kids: Vec<String> = f.children().iter().map(brief).collect();
            format!("{}{}{}({})", f.tag, text_of(f).unwrap_or_default(), attrs.concat(), kids.join(" "))
        }
        let seen = brief(&view.body());
        ctx.step(&html, &seen);
        let attrs: String = attrs.iter().map(|(k, v)| format!(" {k}={v:?}")).collect();
        // the picture of an image
        let inside = if void && tag == "img" { "()" } else if void { "" } else { "i()" };
        let expected = format!("body(p({tag}{attrs}({inside}) b() x()) u())");
        if seen != expected {
            return Err(format!("tree is {seen}, expected {expected} for {html}"));
        }
        Ok(())
    })
}

/// Much of everything.
fn large() -> Family {
    let sizes = [2usize, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 40, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300];
    let mut docs: Vec<Doc> = vec![];
    for n in sizes {
        let span = |i: usize| ["{x}", " a ", "{y.z | wrap}", "-", "{x | wrap | neg}", " b c "][i % 6].to_string();
        let long: String = (0..n).map(span).collect();
        let word: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        docs.push(Doc::new((0..n).map(|i| match i % 4 {
            0 => el("p", vec![at("a", &format!("{i}"))], vec![text("t")]),
            1 => el("br", vec![], vec![]),
            2 => text("{x} b"),
            _ => el("i", vec![bind("a", "{x}")], vec![]),
        }).collect()));
        docs.push(Doc::new(vec![el("p", vec![at("a", &word), bind("b", &long)], vec![text(&long), el("br", vec![], vec![]), text(&word)])]));
        docs.push(Doc::new(vec![el(&word, vec![at(&word, &word), bind(&format!("b{word}"), "{x}"), on(&format!("on{word}"), &word)], vec![text("t")]), text("u")]));
        docs.push(Doc::new(vec![
            el("p", (0..n).map(|i| match i % 4 {
                0 => at(&format!("a{i}"), "v w"),
                1 => bind(&format!("b{i}"), "{x}-{y.z}"),
                2 => flag(&format!("c{i}"), "t"),
                _ => on(&format!("on{i}"), "k $event {x}"),
            }).collect(), vec![text("t")]),
            el("p", vec![at("a", "b")], vec![]),
        ]));
        docs.push(Doc::new(vec![el("p", vec![on("onclick", &(0..n).map(|i| ["k", "$event", "{x}", "{x|wrap}", "k-2"][i % 5]).collect::<Vec<_>>().join(" "))], vec![])]));
        if n <= 65 {
            let templates: Vec<(String, T)> = (0..n).map(|i| (format!("t{i}"), el("i", vec![at("a", &format!("{i}"))], vec![text("{x}")]))).collect();
            docs.push(Doc { templates, body: (0..n).rev().map(|i| link(&format!("t{i}"), vec![at("b", "c")])).collect() });
            docs.push(Doc::new(vec![el("p", vec![repeat("x", n, "l")], vec![text("{x}")]), el("u", vec![], vec![])]));
        }
        if n <= 50 {
            let mut inner = vec![text("in")];
            for i in 0..n {
                inner = vec![el(["p", "i", "x-y"][i % 3], vec![at("a", &format!("{i}"))], inner)];
                if i % 3 == 1 {
                    inner.push(text("after {x}"));
                } else if i % 3 == 2 {
                    inner.insert(0, el("br", vec![at("a", "b")], vec![]));
                }
            }
            docs.push(Doc::new(inner));
        }
    }
    Family::new("large", docs.len() as u64, move |index, ctx| {
        let doc = &docs[index as usize];
        let html = doc.html();
        ctx.begin(&html[..html.len().min(200)]);
        let tokens = document(doc);
        for layout in layouts(&tokens).into_iter().filter(|l| l.one.is_none()) {
            read_back(doc, &write(&tokens, &layout), ctx)?;
        }
        // comments, blanks and words of any length
        if index == 0 {
            for n in [1usize, 2, 3, 10, 31, 32, 33, 100, 255, 256, 257, 1000, 4096, 65536] {
                for fill in [" ", "\n", "\r\n\t", "<!-- c -->", "<!---->"] {
                    let fill = fill.repeat(n);
                    let doc = Doc::new(vec![el("p", vec![at("a", "b")], vec![text("t")])]);
                    read_back(&doc, &format!("{fill}<html>{fill}<body>{fill}<p a=\"b\">{fill}t{fill}</p>{fill}</body>{fill}</html>{fill}"), ctx)?;
                }
                let fill = format!("<!--{}-->", "- x > <p> ".repeat(n));
                read_back(&Doc::new(vec![el("p", vec![], vec![])]), &format!("<html><body>{fill}<p></p>{fill}</body></html>"), ctx)?;
                for fill in [" ", "\n", "\t  "] {
                    let fill = fill.repeat(n);
                    let doc = Doc::new(vec![el("p", vec![at("a", "b"), bind("c", "{x | wrap}"), on("onclick", "k {x}")], vec![text("{y.z}")])]);
                    read_back(&doc, &format!("<html><body><p{fill}a{fill}={fill}\"b\"{fill}@c=\"{{{fill}x{fill}|{fill}wrap{fill}}}\"{fill}^onclick=\"{fill}k{fill}{{x}}{fill}\"{fill}>{{{fill}y.z{fill}}}</p{fill}></body></html>"), ctx)?;
                }
            }
        }
        Ok(())
    })
}

pub fn plan(thorough: bool) -> Plan {
    let pairs = pairs();
    let trees = forests(if thorough { 5 } else { 4 });
    let (np, nt) = (pairs.len() as u64, trees.len() as u64);
    let mut families = vec![
        round_trips("elements with attributes", np, move |i| Some(pairs[i as usize].clone())),
        round_trips("trees", nt, move |i| Some(Doc::new(trees[i as usize].clone()))),
        characters(if thorough { 4 } else { 3 }),
        heads(),
        voids(),
        large(),
        strings(1),
        strings(2),
        strings(3),
        edits(false),
        nesting(),
        recursion(),
    ];
    if thorough {
        families.push(strings(4));
        families.push(edits(true));
    }
    (
        families,
        assumed(&[
            "attribute values are in double quotes, without quotes or left out",
            "comments stand between tags and texts, not inside of them or between two texts",
            "white space around texts is not judged, line breaks inside count as one space",
            "elements are nested up to 100 deep",
        ]),
    )
}
