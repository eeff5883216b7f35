//! Reference model of pointer, focus and drag interaction, driven by the observed boxes.
use super::*;
use bumaga::{Element, Fragment, InputEvent, Keys, MouseButtons, Output, Pointer, View};
use std::collections::HashMap;
use taffy::NodeId;

pub const POINTER: [&str; 3] = ["onmouseenter", "onmouseleave", "onmousemove"];
pub const BUTTON: [&str; 4] = ["onmousedown", "onmouseup", "onclick", "oncontextmenu"];
pub const FOCUS: [&str; 5] = ["onfocus", "onblur", "onkeydown", "onkeyup", "oninput"];
pub const DRAG: [&str; 6] = [
    "ondragstart",
    "ondragend",
    "ondragenter",
    "ondragleave",
    "ondragover",
    "ondrop",
];

/// All listeners of an element named `name`; `oninput` and `ondrop` only where asked for.
pub fn listen(name: &str, input: bool, drop: bool) -> Vec<A> {
    let mut out = vec![at("n", name)];
    for e in POINTER.iter().chain(&BUTTON).chain(&FOCUS).chain(&DRAG) {
        if (*e == "oninput" && !input) || (*e == "ondrop" && !drop) {
            continue;
        }
        out.push(on(e, &format!("{e} {name} $event")));
    }
    out
}

pub fn with(mut a: Vec<A>, more: Vec<A>) -> Vec<A> {
    a.extend(more);
    a
}

pub fn left_down() -> InputEvent {
    InputEvent::MouseButtonDown(MouseButtons::Left)
}
pub fn left_up() -> InputEvent {
    InputEvent::MouseButtonUp(MouseButtons::Left)
}
pub fn right_down() -> InputEvent {
    InputEvent::MouseButtonDown(MouseButtons::Right)
}
pub fn right_up() -> InputEvent {
    InputEvent::MouseButtonUp(MouseButtons::Right)
}
pub fn to(x: f32, y: f32) -> InputEvent {
    InputEvent::MouseMove([x, y])
}
pub fn key_down() -> InputEvent {
    InputEvent::KeyDown(Keys::Enter)
}
pub fn key_up() -> InputEvent {
    InputEvent::KeyUp(Keys::Escape)
}
pub fn char_in() -> InputEvent {
    InputEvent::Char('é')
}

/// What the reference knows of a shown node.
#[derive(Clone)]
struct Seen {
    node: NodeId,
    name: Option<String>,
    at: [f32; 2],
    size: [f32; 2],
    hit: bool,
    /// the events it has handlers for
    heard: Vec<String>,
    draggable: bool,
    cursor: Pointer,
}

impl Seen {
    fn hears(&self, event: &str) -> bool {
        self.heard.iter().any(|e| e == event)
    }
}

#[derive(Default, Clone, Copy, PartialEq, Debug)]
pub struct State {
    pub active: bool,
    pub hover: bool,
    pub focus: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Message {
    pub event: &'static str,
    pub name: String,
    pub value: Value,
}

#[derive(Default)]
pub struct Sim {
    mouse: [f32; 2],
    hovered: Vec<NodeId>,
    in_action: Vec<NodeId>,
    pub focus: Option<NodeId>,
    pub drag: Option<NodeId>,
    known: HashMap<NodeId, Seen>,
    shown: Vec<Seen>,
    pub messages: Vec<Message>,
}

/// Whether classes of the element say that it takes part in hit testing and which cursor it has.
/// `h` hidden by visibility, `n`/`y` pointer-events none/auto, `c-...` a cursor.
pub const CSS: &str = "\
.h { visibility: hidden; } .n { pointer-events: none; } .y { pointer-events: auto; }
.c-pointer { cursor: pointer; } .c-text { cursor: text; } .c-wait { cursor: wait; } .c-auto { cursor: auto; }
.c-default { cursor: default; } .c-help { cursor: help; }\n";

fn classes(e: &Element) -> Vec<String> {
    e.attrs
        .get("class")
        .map(|c| c.split_whitespace().map(|s| s.to_string()).collect())
        .unwrap_or_default()
}

fn collect(f: &Fragment, visible: bool, pointer: bool, in_img: bool, out: &mut Vec<Seen>) {
    let own = classes(f);
    let has = |c: &str| own.iter().any(|o| o == c);
    let inner = f.text.is_some() || in_img;
    let visible = if inner { visible } else { !has("h") };
    // (the rule of `y` follows that of `n`)
    let pointer = if has("y") {
        true
    } else if has("n") {
        false
    } else {
        pointer
    };
    let mut cursor = Pointer::Auto;
    for c in &own {
        match c.as_str() {
            "c-pointer" => cursor = Pointer::Pointer,
            "c-text" => cursor = Pointer::Text,
            "c-wait" => cursor = Pointer::Wait,
            "c-default" => cursor = Pointer::Default,
            "c-help" => cursor = Pointer::Help,
            _ => {}
        }
    }
    out.push(Seen {
        node: f.node,
        name: f.attrs.get("n").cloned(),
        at: f.position,
        size: f.size,
        hit: visible && pointer,
        heard: f.listeners.keys().cloned().collect(),
        draggable: f.attrs.get("draggable").map(|v| v == "true").unwrap_or(false),
        cursor,
    });
    for c in f.children() {
        collect(&c, visible, pointer, f.tag == "img", out);
    }
}


impl Sim {
    pub fn state(&self, node: NodeId) -> State {
        State {
            active: self.in_action.contains(&node),
            hover: self.hovered.contains(&node),
            focus: self.focus == Some(node),
        }
    }

    fn emit(&mut self, node: NodeId, event: &'static str, extra: &[(&str, Value)]) {
        let seen = &self.known[&node];
        let Some(name) = seen.name.clone() else {
            return;
        };
        if !seen.hears(event) {
            return;
        }
        let s = self.state(node);
        let mut value = json!({
            "target": {
                "size": seen.size,
                "position": seen.at,
                "state": {"active": s.active, "hover": s.hover, "focus": s.focus, "checked": false},
            }
        });
        if extra.is_empty() {
            value["position"] = json!(self.mouse);
        }
        for (k, v) in extra {
            value[*k] = v.clone();
        }
        self.messages.push(Message { event, name, value });
    }

    fn moved(&mut self, to: [f32; 2]) {
        self.mouse = to;
        let now: Vec<NodeId> = self
            .shown
            .iter()
            .filter(|s| {
                s.hit
                    && to[0] >= s.at[0]
                    && to[1] >= s.at[1]
                    && to[0] < s.at[0] + s.size[0]
                    && to[1] < s.at[1] + s.size[1]
            })
            .map(|s| s.node)
            .collect();
        let before = std::mem::replace(&mut self.hovered, now.clone());
        for node in before.iter().rev() {
            if !now.contains(node) {
                self.emit(*node, "onmouseleave", &[]);
                if self.drag.is_some() {
                    self.emit(*node, "ondragleave", &[]);
                }
            }
        }
        for node in now.iter().rev() {
            if !before.contains(node) {
                self.emit(*node, "onmouseenter", &[]);
                if self.drag.is_some() {
                    self.emit(*node, "ondragenter", &[]);
                }
            }
            self.emit(*node, "onmousemove", &[]);
            if self.drag.is_some() {
                self.emit(*node, "ondragover", &[]);
            }
        }
    }

    fn down(&mut self, button: MouseButtons) {
        if let Some(focus) = self.focus {
            if !self.hovered.contains(&focus) {
                self.focus = None;
                self.emit(focus, "onblur", &[]);
            }
        }
        for node in self.hovered.clone().into_iter().rev() {
            if !self.in_action.contains(&node) {
                self.in_action.push(node);
            }
            let seen = self.known[&node].clone();
            if seen.hears("oninput") && self.focus != Some(node) {
                if let Some(old) = self.focus.take() {
                    self.emit(old, "onblur", &[]);
                }
                self.focus = Some(node);
                self.emit(node, "onfocus", &[]);
            }
            self.emit(node, "onmousedown", &[]);
            if button == MouseButtons::Left && seen.draggable {
                self.drag = Some(node);
                self.emit(node, "ondragstart", &[]);
            }
        }
    }

    fn up(&mut self, button: MouseButtons) {
        let drag = self.drag;
        let mut dropped = false;
        for node in self.hovered.clone().into_iter().rev() {
            self.emit(node, "onmouseup", &[]);
            if drag.is_some() {
                if !dropped && self.known[&node].hears("ondrop") {
                    dropped = true;
                    self.emit(node, "ondrop", &[]);
                }
            } else if button == MouseButtons::Left {
                if self.in_action.contains(&node) {
                    self.emit(node, "onclick", &[]);
                }
            } else {
                self.emit(node, "oncontextmenu", &[]);
            }
        }
        if let Some(source) = drag {
            self.drag = None;
            self.emit(source, "ondragend", &[]);
        }
        self.in_action.clear();
    }

    /// Feed one update: the boxes shown after it and its events. Returns the expected messages.
    pub fn update(&mut self, body: &Fragment, events: &[InputEvent]) -> Vec<Message> {
        self.shown.clear();
        collect(body, true, true, false, &mut self.shown);
        for s in &self.shown {
            self.known.insert(s.node, s.clone());
        }
        self.messages.clear();
        if !matches!(events.first(), Some(InputEvent::MouseMove(_))) {
            self.moved(self.mouse);
        }
        for e in events {
            match e {
                InputEvent::MouseMove(p) => self.moved(*p),
                InputEvent::MouseButtonDown(b) => self.down(*b),
                InputEvent::MouseButtonUp(b) => self.up(*b),
                InputEvent::KeyDown(k) => self.typed("onkeydown", "key", json!(k)),
                InputEvent::KeyUp(k) => self.typed("onkeyup", "key", json!(k)),
                InputEvent::Char(c) => self.typed("oninput", "char", json!(c)),
                InputEvent::MouseWheel(_) | InputEvent::Unknown => {}
            }
        }
        std::mem::take(&mut self.messages)
    }

    fn typed(&mut self, event: &'static str, key: &str, value: Value) {
        if let Some(node) = self.focus {
            self.emit(node, event, &[(key, value)]);
        }
    }

    /// The interaction state with names instead of nodes.
    pub fn describe(&self) -> String {
        let name = |n: &NodeId| self.known.get(n).and_then(|s| s.name.clone()).unwrap_or("?".to_string());
        let names = |l: &[NodeId]| l.iter().map(name).collect::<Vec<_>>().join(" ");
        format!(
            "at {:?} over [{}] active [{}] focus {:?} drag {:?}",
            self.mouse,
            names(&self.hovered),
            names(&self.in_action),
            self.focus.as_ref().map(name),
            self.drag.as_ref().map(name)
        )
    }

    pub fn captured(&self) -> bool {
        !self.hovered.is_empty()
            || !self.in_action.is_empty()
            || self.focus.is_some()
            || self.drag.is_some()
    }

    pub fn cursor(&self) -> Pointer {
        self.hovered
            .iter()
            .rev()
            .map(|n| self.known[n].cursor)
            .find(|p| *p != Pointer::Auto)
            .unwrap_or(Pointer::Auto)
    }
}

/// Messages of the given kinds as (event, element, event argument).
pub fn projected(output: &[Value], kinds: &[&'static str]) -> Result<Vec<Message>, String> {
    let mut out = vec![];
    for m in output {
        let (event, args) = m
            .as_object()
            .filter(|o| o.len() == 1)
            .and_then(|o| o.iter().next())
            .ok_or(format!("unexpected message {m}"))?;
        let Some(kind) = kinds.iter().find(|k| *k == event) else {
            continue;
        };
        out.push(Message {
            event: kind,
            name: args[0].as_str().unwrap_or("").to_string(),
            value: args[1].clone(),
        });
    }
    Ok(out)
}

pub fn brief_messages(m: &[Message]) -> String {
    m.iter()
        .map(|m| format!("{} {}", m.event, m.name))
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn same_messages(seen: &[Message], expected: &[Message]) -> Result<(), String> {
    let a = brief_messages(seen);
    let b = brief_messages(expected);
    if a != b {
        return Err(format!("messages [{a}], expected [{b}]"));
    }
    for (x, y) in seen.iter().zip(expected) {
        if x.value != y.value {
            return Err(format!(
                "argument of {} {} is {}, expected {}",
                x.event, x.name, x.value, y.value
            ));
        }
    }
    Ok(())
}

/// One thing the environment does: new value (an index) or events, or both.
#[derive(Clone)]
pub struct Act {
    pub value: Option<Value>,
    pub events: Vec<InputEvent>,
}

pub fn act(e: InputEvent) -> Act {
    Act {
        value: None,
        events: vec![e],
    }
}

pub fn show(v: Value) -> Act {
    Act {
        value: Some(v),
        events: vec![],
    }
}

/// All sequences of `depth` actions, each one its own update, checked by projection on `kinds`.
pub fn interactions(
    name: &str,
    doc: Doc,
    css: &str,
    first: Value,
    acts: Vec<Act>,
    depth: usize,
    kinds: &'static [&'static str],
    capture: bool,
) -> Family {
    interactions_of(name, doc.html(), css, first, acts, depth, kinds, capture)
}

pub fn interactions_of(
    name: &str,
    html: String,
    css: &str,
    first: Value,
    acts: Vec<Act>,
    depth: usize,
    kinds: &'static [&'static str],
    capture: bool,
) -> Family {
    let css = format!("{CSS}{css}");
    let n = acts.len() as u64;
    Family::new(name, n.pow(depth as u32), move |index, ctx| {
        ctx.begin(&format!("{html}\n{css}"));
        let mut view = view(&html, &css)?;
        let mut sim = Sim::default();
        let mut value = first.clone();
        let step = Step::new(value.clone());
        run(&mut view, &mut sim, &step, kinds, capture, ctx)?;
        for i in digits(index, n, depth) {
            let act = &acts[i];
            if let Some(v) = &act.value {
                merge(&mut value, v);
            }
            let step = Step::new(value.clone()).events(act.events.clone());
            run(&mut view, &mut sim, &step, kinds, capture, ctx)?;
        }
        Ok(())
    })
}

/// Fields of `change` replace those of `value`; a "toggle" marker flips a boolean.
pub fn merge(value: &mut Value, change: &Value) {
    for (k, v) in change.as_object().unwrap() {
        value[k] = if v == "toggle" {
            json!(!value[k].as_bool().unwrap_or(false))
        } else {
            v.clone()
        };
    }
}

pub fn run(
    view: &mut View,
    sim: &mut Sim,
    step: &Step,
    kinds: &[&'static str],
    capture: bool,
    ctx: &mut crate::engine::Ctx,
) -> Result<Output, String> {
    let output = step.run(view)?;
    let expected = sim.update(&view.body(), &step.events);
    let seen = projected(&output.messages, kinds)?;
    let expected: Vec<Message> = expected
        .into_iter()
        .filter(|m| kinds.contains(&m.event))
        .collect();
    ctx.step(
        &step.label(),
        &format!(
            "[{}] captured={} cursor={:?} {} {}",
            brief_messages(&seen),
            output.is_input_captured,
            output.pointer,
            sim.describe(),
            step.value
        ),
    );
    if !kinds.is_empty() {
        same_messages(&seen, &expected)?;
    }
    if capture {
        if output.is_input_captured != sim.captured() {
            return Err(format!(
                "captured is {}, expected {}",
                output.is_input_captured,
                sim.captured()
            ));
        }
        if output.pointer != sim.cursor() {
            return Err(format!(
                "cursor is {:?}, expected {:?}",
                output.pointer,
                sim.cursor()
            ));
        }
    }
    Ok(output)
}

/// What an element can be: which handlers it has and whether it can be dragged.
#[derive(Clone, Copy, PartialEq)]
enum Role {
    Silent,
    Plain,
    Clicked,
    Entered,
    Field,
    Typed,
    Target,
    Dropped,
    Source,
    Dragged,
    /// can be dragged and dropped onto
    Both,
}
use Role::*;

impl Role {
    fn takes_focus(self) -> bool {
        matches!(self, Field | Typed)
    }
    fn can_be_dragged(self) -> bool {
        matches!(self, Source | Dragged | Both)
    }
    fn attrs(self, name: &'static str, cursor: &str) -> Vec<A> {
        let only = |events: &[&str]| {
            let mut out = vec![at("n", name)];
            out.extend(events.iter().map(|e| on(e, &format!("{e} {name} $event"))));
            out
        };
        let mut out = match self {
            Silent | Dragged => only(&[]),
            Plain | Source => listen(name, false, false),
            Clicked => only(&["onclick", "oncontextmenu", "onblur"]),
            Entered => only(&["onmouseenter", "ondragleave", "onmousedown"]),
            Field => listen(name, true, false),
            Typed => only(&["oninput"]),
            Target | Both => listen(name, false, true),
            Dropped => only(&["ondrop"]),
        };
        if self.can_be_dragged() {
            out.push(at("draggable", "true"));
        }
        out.push(at("class", &format!("{name} {cursor}")));
        out
    }
}

pub const ROLES: &str = "\
body { width: 100px; height: 60px; }
.o { position: absolute; left: 0; top: 0; width: 50px; height: 50px; }
.i { position: absolute; left: 10px; top: 10px; width: 20px; height: 20px; }
.s { position: absolute; left: 60px; top: 0; width: 30px; height: 30px; }
.t { position: absolute; left: 70px; top: 10px; width: 10px; height: 10px; }
";

/// Every assignment of roles to a box, a box inside of it, a box beside them and one over that;
/// every sequence of gestures.
pub fn roles(thorough: bool, depth: usize, kinds: &'static [&'static str], capture: bool) -> Family {
    let palette: Vec<Role> = if thorough {
        vec![Silent, Plain, Clicked, Entered, Field, Typed, Target, Dropped, Source, Dragged, Both]
    } else {
        vec![Silent, Clicked, Entered, Typed, Field, Target, Dropped, Both]
    };
    let mut docs = vec![];
    let n = palette.len();
    for k in 0..n * n * n * n {
        let [o, i, s, t] = [k / (n * n * n), k / (n * n) % n, k / n % n, k % n].map(|r| palette[r]);
        let both = |f: fn(Role) -> bool| (f(o) && f(i)) || (f(s) && f(t));
        if both(Role::takes_focus) || both(Role::can_be_dragged) {
            continue;
        }
        if !thorough && t != Silent && i != Silent {
            continue;
        }
        docs.push([o, i, s, t]);
    }
    let (inner, outer, beside, over, empty) = (to(15.0, 15.0), to(40.0, 40.0), to(62.0, 5.0), to(75.0, 15.0), to(95.0, 55.0));
    let gestures: Vec<Vec<InputEvent>> = vec![
        vec![inner.clone(), left_down(), over.clone(), left_up()],
        vec![over.clone(), left_down(), char_in(), inner.clone(), outer.clone(), left_up()],
        vec![outer.clone(), left_down(), key_down(), inner.clone(), left_up(), char_in()],
        vec![inner.clone(), right_down(), right_up(), key_up()],
        vec![beside.clone(), left_down(), key_up()],
        vec![left_up(), empty, right_down(), left_up()],
        vec![over, left_down(), left_up(), char_in(), beside.clone()],
        vec![outer, inner, right_down()],
        // outside of everything
        vec![to(200.0, 200.0), left_up(), beside, left_up()],
    ];
    let css = format!("{CSS}{ROLES}");
    let n = gestures.len() as u64;
    let walks = n.pow(depth as u32);
    Family::new("roles", docs.len() as u64 * walks, move |index, ctx| {
        let [o, i, s, t] = docs[(index / walks) as usize];
        let doc = Doc::new(vec![
            div(o.attrs("o", "c-wait"), vec![div(i.attrs("i", "c-auto"), vec![])]),
            div(s.attrs("s", "c-help"), vec![]),
            div(t.attrs("t", "c-text"), vec![]),
        ]);
        let html = doc.html();
        ctx.begin(&format!("{html}\n{css}"));
        let mut view = view(&html, &css)?;
        let mut sim = Sim::default();
        run(&mut view, &mut sim, &Step::new(json!({})), kinds, capture, ctx)?;
        for i in digits(index % walks, n, depth) {
            let step = Step::new(json!({})).events(gestures[i].clone());
            run(&mut view, &mut sim, &step, kinds, capture, ctx)?;
        }
        Ok(())
    })
}

/// What happens while a box, the box around it or one beside them comes and goes, in every state
/// of the pointer, the focus and a drag.
pub fn vanishing(thorough: bool, depth: usize, kinds: &'static [&'static str], capture: bool) -> Family {
    let casts: Vec<[Role; 3]> = match (thorough, kinds.contains(&"ondrop")) {
        (_, true) => vec![[Plain, Both, Target], [Target, Source, Both], [Both, Target, Dropped]],
        (false, _) => vec![[Plain, Field, Clicked], [Target, Both, Typed]],
        (true, _) => vec![[Plain, Field, Clicked], [Target, Both, Typed], [Field, Clicked, Both], [Entered, Typed, Plain]],
    };
    let (inner, beside, far) = (to(15.0, 15.0), to(62.0, 5.0), to(200.0, 200.0));
    let prefixes: Vec<Vec<InputEvent>> = vec![
        vec![],
        vec![inner, left_down(), left_up()],
        vec![inner, left_down()],
        vec![beside, left_down()],
        vec![beside, left_down(), left_up(), far],
    ];
    let some = |v: Value, events: Vec<InputEvent>| Act { value: Some(v), events };
    let acts = vec![
        act(inner),
        act(beside),
        act(far),
        act(left_down()),
        act(left_up()),
        act(char_in()),
        show(json!({"a": "toggle"})),
        show(json!({"w": "toggle"})),
        show(json!({"cs": "h"})),
        show(json!({"cs": ""})),
        some(json!({"a": "toggle"}), vec![left_up()]),
        some(json!({"a": "toggle"}), vec![left_down(), char_in()]),
        some(json!({"w": "toggle"}), vec![far]),
        some(json!({"w": "toggle"}), vec![right_down(), key_down(), left_up()]),
        Act { value: None, events: vec![beside, left_down(), inner, left_up(), char_in()] },
    ];
    let css = format!("{CSS}{ROLES}");
    let n = acts.len() as u64;
    let (p, walks) = (prefixes.len() as u64, n.pow(depth as u32));
    Family::new("vanishing", casts.len() as u64 * p * walks, move |index, ctx| {
        let m = mixed(index / walks, &[p, casts.len() as u64]);
        let [o, i, s] = casts[m[1]];
        let mut last = s.attrs("s", "");
        last.pop();
        let doc = Doc::new(vec![
            div(with(o.attrs("o", "c-wait"), vec![when("w")]), vec![div(with(i.attrs("i", "c-auto"), vec![when("a")]), vec![])]),
            div(with(last, vec![bind("class", "s c-help {cs}")]), vec![]),
        ]);
        let html = doc.html();
        ctx.begin(&format!("{html}\n{css}"));
        let mut view = view(&html, &css)?;
        let mut sim = Sim::default();
        let mut value = json!({"w": true, "a": true, "cs": ""});
        run(&mut view, &mut sim, &Step::new(value.clone()), kinds, capture, ctx)?;
        for e in &prefixes[m[0]] {
            run(&mut view, &mut sim, &Step::new(value.clone()).event(*e), kinds, capture, ctx)?;
        }
        for i in digits(index % walks, n, depth) {
            let act = &acts[i];
            if let Some(v) = &act.value {
                merge(&mut value, v);
            }
            let step = Step::new(value.clone()).events(act.events.clone());
            run(&mut view, &mut sim, &step, kinds, capture, ctx)?;
        }
        Ok(())
    })
}
