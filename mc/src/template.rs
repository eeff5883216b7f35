//! Templates as data: printing to HTML and the reference rendering against a JSON value.
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct P {
    pub keys: Vec<String>,
    pub pipes: Vec<String>,
}

/// Path from `a.b.c` or `a.b | pipe | pipe`.
pub fn p(text: &str) -> P {
    let mut parts = text.split('|').map(|s| s.trim().to_string());
    let keys = parts
        .next()
        .unwrap_or_default()
        .split('.')
        .map(|s| s.to_string())
        .collect();
    P {
        keys,
        pipes: parts.collect(),
    }
}

impl P {
    pub fn print(&self) -> String {
        let mut s = format!("{{{}", self.keys.join("."));
        for pipe in &self.pipes {
            s.push_str(" | ");
            s.push_str(pipe);
        }
        s.push('}');
        s
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Span {
    S(String),
    B(P),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Key(String),
    Event,
    B(P),
}

#[derive(Clone, Debug, PartialEq)]
pub enum A {
    Static(String, String),
    Bind(String, Vec<Span>),
    Flag(String, P),
    Vis(bool, P),
    Repeat(String, usize, P),
    Alias(String, P),
    On(String, Vec<Arg>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Text(Vec<Span>),
    El(String, Vec<A>, Vec<T>),
    /// use of a template with additional attributes
    Link(String, Vec<A>),
}

pub const VOID: [&str; 16] = [
    "area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link",
    "meta", "param", "source", "track", "wbr",
];

pub fn el(tag: &str, attrs: Vec<A>, kids: Vec<T>) -> T {
    T::El(tag.to_string(), attrs, kids)
}
pub fn div(attrs: Vec<A>, kids: Vec<T>) -> T {
    el("div", attrs, kids)
}
pub fn link(name: &str, attrs: Vec<A>) -> T {
    T::Link(name.to_string(), attrs)
}
/// Spans from text with `{...}` parts.
pub fn spans(text: &str) -> Vec<Span> {
    let mut out = vec![];
    let mut rest = text;
    while let Some(start) = rest.find('{') {
        if start > 0 {
            out.push(Span::S(rest[..start].to_string()));
        }
        let end = rest[start..].find('}').expect("closed binder") + start;
        out.push(Span::B(p(&rest[start + 1..end])));
        rest = &rest[end + 1..];
    }
    if !rest.is_empty() {
        out.push(Span::S(rest.to_string()));
    }
    out
}
pub fn text(s: &str) -> T {
    T::Text(spans(s))
}
pub fn at(key: &str, value: &str) -> A {
    A::Static(key.to_string(), value.to_string())
}
pub fn bind(key: &str, value: &str) -> A {
    A::Bind(key.to_string(), spans(value))
}
pub fn flag(key: &str, path: &str) -> A {
    A::Flag(key.to_string(), p(path))
}
pub fn when(path: &str) -> A {
    A::Vis(true, p(path))
}
pub fn unless(path: &str) -> A {
    A::Vis(false, p(path))
}
pub fn repeat(name: &str, n: usize, path: &str) -> A {
    A::Repeat(name.to_string(), n, p(path))
}
pub fn alias(name: &str, path: &str) -> A {
    A::Alias(name.to_string(), p(path))
}
/// Handler from words: keywords, `$event` and `{path}`.
pub fn on(event: &str, args: &str) -> A {
    let mut out = vec![];
    for span in spans(args) {
        match span {
            Span::B(path) => out.push(Arg::B(path)),
            Span::S(s) => {
                for w in s.split_whitespace() {
                    out.push(if w == "$event" {
                        Arg::Event
                    } else {
                        Arg::Key(w.to_string())
                    });
                }
            }
        }
    }
    A::On(event.to_string(), out)
}

fn print_spans(spans: &[Span]) -> String {
    spans
        .iter()
        .map(|s| match s {
            Span::S(s) => s.clone(),
            Span::B(p) => p.print(),
        })
        .collect()
}

fn print_attr(a: &A) -> String {
    match a {
        A::Static(k, v) => format!("{k}=\"{v}\""),
        A::Bind(k, s) => format!("@{k}=\"{}\"", print_spans(s)),
        A::Flag(k, p) => format!("#{k}=\"{}\"", p.print()),
        A::Vis(v, p) => format!("{}=\"{}\"", if *v { "?" } else { "!" }, p.print()),
        A::Repeat(k, n, p) => format!("*{k}=\"{n} {}\"", p.print()),
        A::Alias(k, p) => format!("+{k}=\"{}\"", p.print()),
        A::On(k, args) => format!(
            "^{k}=\"{}\"",
            args.iter()
                .map(|a| match a {
                    Arg::Key(k) => k.clone(),
                    Arg::Event => "$event".to_string(),
                    Arg::B(p) => p.print(),
                })
                .collect::<Vec<_>>()
                .join(" ")
        ),
    }
}

pub fn print(t: &T) -> String {
    match t {
        T::Text(s) => print_spans(s),
        T::Link(name, attrs) => {
            let mut s = format!("<link href=\"#{name}\"");
            for a in attrs {
                s.push(' ');
                s.push_str(&print_attr(a));
            }
            s.push_str("/>");
            s
        }
        T::El(tag, attrs, kids) => {
            let mut s = format!("<{tag}");
            for a in attrs {
                s.push(' ');
                s.push_str(&print_attr(a));
            }
            if VOID.contains(&tag.as_str()) {
                s.push_str("/>");
                return s;
            }
            s.push('>');
            for k in kids {
                s.push_str(&print(k));
            }
            s.push_str(&format!("</{tag}>"));
            s
        }
    }
}

/// A document: templates and body.
#[derive(Clone, Debug)]
pub struct Doc {
    pub templates: Vec<(String, T)>,
    pub body: Vec<T>,
}

impl Doc {
    pub fn new(body: Vec<T>) -> Doc {
        Doc {
            templates: vec![],
            body,
        }
    }
    pub fn html(&self) -> String {
        let mut s = "<html>".to_string();
        for (name, t) in &self.templates {
            s.push_str(&format!("<template id=\"{name}\">{}</template>", print(t)));
        }
        s.push_str("<body>");
        for t in &self.body {
            s.push_str(&print(t));
        }
        s.push_str("</body></html>");
        s
    }
    /// The document with every use of a template replaced by its content.
    pub fn expanded(&self) -> Vec<T> {
        self.body.iter().map(|t| self.expand(t)).collect()
    }
    fn expand(&self, t: &T) -> T {
        match t {
            T::Text(_) => t.clone(),
            T::El(tag, attrs, kids) => T::El(
                tag.clone(),
                attrs.clone(),
                kids.iter().map(|k| self.expand(k)).collect(),
            ),
            T::Link(name, attrs) => {
                let (_, content) = self
                    .templates
                    .iter()
                    .rev()
                    .find(|(n, _)| n == name)
                    .expect("template");
                match self.expand(content) {
                    T::El(tag, own, kids) => {
                        let mut all = attrs.clone();
                        all.extend(own);
                        T::El(tag, all, kids)
                    }
                    other => other,
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// reference rendering

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub tag: String,
    pub text: Option<String>,
    pub attrs: BTreeMap<String, String>,
    pub kids: Vec<Node>,
    pub handlers: BTreeMap<String, Vec<Val>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Key(String),
    Event,
    V(Value),
}

pub fn truthy(v: &Value) -> bool {
    match v {
        Value::Null => false,
        Value::Bool(b) => *b,
        Value::Number(n) => n.as_f64() != Some(0.0),
        Value::String(s) => !s.is_empty(),
        Value::Array(a) => !a.is_empty(),
        Value::Object(_) => true,
    }
}

pub fn shown(v: &Value) -> String {
    match v {
        Value::Null => String::new(),
        Value::Bool(b) => b.to_string(),
        Value::Number(n) => n.to_string(),
        Value::String(s) => s.clone(),
        Value::Array(_) => "[array]".to_string(),
        Value::Object(_) => "{object}".to_string(),
    }
}

/// The pipes every view of the harness knows.
pub fn pipe(name: &str, v: Value) -> Value {
    match name {
        "inc" => match v.as_i64() {
            Some(n) => json!(n + 1),
            None => v,
        },
        "dbl" => match v.as_i64() {
            Some(n) => json!(n * 2),
            None => v,
        },
        "neg" => json!(!truthy(&v)),
        "len" => match &v {
            Value::Array(a) => json!(a.len()),
            Value::String(s) => json!(s.len()),
            Value::Object(o) => json!(o.len()),
            _ => Value::Null,
        },
        "wrap" => json!(format!("<{}>", shown(&v))),
        // which kind of value reaches the pipe
        "kind" => json!(match &v {
            Value::Null => "null",
            Value::Bool(_) => "bool",
            Value::Number(_) => "number",
            Value::String(_) => "string",
            Value::Array(_) => "array",
            Value::Object(_) => "object",
        }),
        "rev" => match v {
            Value::Array(mut a) => {
                a.reverse();
                Value::Array(a)
            }
            v => v,
        },
        "tail" => match v {
            Value::Array(a) => Value::Array(a.into_iter().skip(1).collect()),
            v => v,
        },
        _ => v,
    }
}

pub const PIPES: [(&str, fn(Value) -> Value); 8] = [
    ("inc", |v| pipe("inc", v)),
    ("dbl", |v| pipe("dbl", v)),
    ("neg", |v| pipe("neg", v)),
    ("len", |v| pipe("len", v)),
    ("wrap", |v| pipe("wrap", v)),
    ("kind", |v| pipe("kind", v)),
    ("rev", |v| pipe("rev", v)),
    ("tail", |v| pipe("tail", v)),
];

pub type Env = Vec<(String, Value)>;

pub fn raw_lookup(path: &[String], env: &Env, root: &Value) -> Value {
    let head = &path[0];
    let mut v = match env.iter().rev().find(|(n, _)| n == head) {
        Some((_, v)) => v.clone(),
        None => field(root, head),
    };
    for key in &path[1..] {
        v = field(&v, key);
    }
    v
}

fn field(v: &Value, key: &str) -> Value {
    match v {
        Value::Object(o) => o.get(key).cloned().unwrap_or(Value::Null),
        Value::Array(a) => key
            .parse::<usize>()
            .ok()
            .and_then(|i| a.get(i).cloned())
            .unwrap_or(Value::Null),
        _ => Value::Null,
    }
}

pub fn lookup(path: &P, env: &Env, root: &Value) -> Value {
    let mut v = raw_lookup(&path.keys, env, root);
    for name in &path.pipes {
        v = pipe(name, v);
    }
    v
}

fn join(s: &[Span], env: &Env, root: &Value, fixed: &dyn Fn(&str) -> String) -> String {
    s.iter()
        .map(|s| match s {
            Span::S(s) => fixed(s),
            Span::B(p) => shown(&lookup(p, env, root)),
        })
        .collect()
}

pub struct Reference<'a> {
    pub root: &'a Value,
    pub translate: &'a dyn Fn(&str) -> String,
}

impl Reference<'_> {
    pub fn body(&self, doc: &Doc) -> Node {
        let mut kids = vec![];
        for t in doc.expanded() {
            self.node(&t, &vec![], &mut kids);
        }
        Node {
            tag: "body".to_string(),
            text: None,
            attrs: BTreeMap::new(),
            kids,
            handlers: BTreeMap::new(),
        }
    }

    fn node(&self, t: &T, env: &Env, out: &mut Vec<Node>) {
        let (tag, attrs, kids) = match t {
            T::Text(s) => {
                out.push(Node {
                    tag: String::new(),
                    text: Some(join(s, env, self.root, self.translate)),
                    attrs: BTreeMap::new(),
                    kids: vec![],
                    handlers: BTreeMap::new(),
                });
                return;
            }
            T::Link(..) => unreachable!("expanded"),
            T::El(tag, attrs, kids) => (tag, attrs, kids),
        };
        let mut env = env.clone();
        for a in attrs {
            if let A::Alias(name, path) = a {
                // (pipes of aliases are not part of the language)
                let v = raw_lookup(&path.keys, &env, self.root);
                env.push((name.clone(), v));
            }
        }
        for a in attrs {
            if let A::Vis(sense, path) = a {
                if truthy(&lookup(path, &env, self.root)) != *sense {
                    return;
                }
            }
        }
        for a in attrs {
            if let A::Repeat(name, n, path) = a {
                // capacity and number of copies follow the piped array, items are those of the path
                let items = raw_lookup(&path.keys, &env, self.root);
                let piped = lookup(path, &env, self.root);
                let count = piped.as_array().map(|a| a.len()).unwrap_or(0).min(*n);
                for i in 0..count {
                    let mut inner = env.clone();
                    inner.push((name.clone(), field(&items, &i.to_string())));
                    out.push(self.element(tag, attrs, kids, &inner));
                }
                return;
            }
        }
        out.push(self.element(tag, attrs, kids, &env));
    }

    fn element(&self, tag: &str, attrs: &[A], kids: &[T], env: &Env) -> Node {
        let mut n = Node {
            tag: tag.to_string(),
            text: None,
            attrs: BTreeMap::new(),
            kids: vec![],
            handlers: BTreeMap::new(),
        };
        for a in attrs {
            match a {
                A::Static(k, v) => {
                    n.attrs.insert(k.clone(), v.clone());
                }
                A::Bind(k, s) => {
                    let v = join(s, env, self.root, &|s| s.to_string());
                    n.attrs.insert(k.clone(), v);
                }
                A::Flag(k, path) => {
                    if truthy(&lookup(path, env, self.root)) {
                        n.attrs.insert(k.clone(), k.clone());
                    } else {
                        n.attrs.remove(k);
                    }
                }
                A::On(event, args) => {
                    let args = args
                        .iter()
                        .map(|a| match a {
                            Arg::Key(k) => Val::Key(k.clone()),
                            Arg::Event => Val::Event,
                            Arg::B(p) => Val::V(lookup(p, env, self.root)),
                        })
                        .collect();
                    n.handlers.insert(event.clone(), args);
                }
                A::Vis(..) | A::Repeat(..) | A::Alias(..) => {}
            }
        }
        if !VOID.contains(&tag) {
            for k in kids {
                self.node(k, env, &mut n.kids);
            }
        }
        n
    }
}

/// The message of a handler, given the payload of the event.
pub fn message(args: &[Val], event: &Value) -> Value {
    let values: Vec<Value> = args
        .iter()
        .map(|a| match a {
            Val::Key(k) => json!(k),
            Val::Event => event.clone(),
            Val::V(v) => v.clone(),
        })
        .collect();
    let key = values.first().map(shown).unwrap_or("Undefined".to_string());
    match values.len() {
        0 | 1 => json!(key),
        2 => json!({ key: values[1].clone() }),
        _ => json!({ key: values[1..].to_vec() }),
    }
}
