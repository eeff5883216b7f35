From 7aec0ad364bd40f68f0672dab7f9d9b5ad1d48ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 01/53] fix: bind every value relative to the complete previous
 one

The model was narrowed to its expected shape, cut to the length of the
shorter array and never told whether a binding had been shown at all, so
initial nulls, changes of type and growing arrays left old texts, or
panicked on arrays without a default item.
---
 src/view_model.rs | 192 ++++++++++++----------------------------------
 1 file changed, 48 insertions(+), 144 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 2e36b42..70bbe30 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -18,8 +18,10 @@ pub type Transformer = fn(Value) -> Value;
 
 pub struct ViewModel {
     pub(crate) bindings: Bindings,
-    model: Value,
-    model_array_default: HashMap<String, Value>,
+    /// The shape of value expected by bindings.
+    schema: Value,
+    /// The last bound value, complete.
+    model: Option<Value>,
     pub(crate) transformers: HashMap<String, Transformer>,
     // state
     // pub(crate) focus: Option<NodeId>,
@@ -33,12 +35,10 @@ pub struct ViewModel {
 
 impl ViewModel {
     pub fn create(bindings: Bindings, model: Value) -> Self {
-        let mut model_array_default = HashMap::new();
-        Self::memorize_array_default("", &model, &mut model_array_default);
         Self {
             bindings,
-            model,
-            model_array_default,
+            schema: model,
+            model: None,
             transformers: default_transformers(),
             mouse: [0.0, 0.0],
             elements_under_mouse: Vec::new(),
@@ -49,159 +49,63 @@ impl ViewModel {
         }
     }
 
-    fn memorize_array_default(
-        type_path: &str,
-        value: &Value,
-        default: &mut HashMap<String, Value>,
-    ) {
-        match value {
-            Value::Array(array) => {
-                default.insert(type_path.to_string(), array[0].clone());
-                Self::memorize_array_default(type_path, &array[0], default)
-            }
-            Value::Object(object) => {
-                for (key, value) in object {
-                    Self::memorize_array_default(&format!("{type_path}/{key}"), value, default)
-                }
-            }
-            _ => {}
-        }
-    }
-
     pub fn bind(&mut self, value: &Value) -> Vec<Reaction> {
         let mut reactions = vec![];
         Self::bind_value(
-            &mut self.model,
+            &self.schema,
+            self.model.as_ref(),
             value,
             "",
-            "",
             &self.bindings,
             &mut reactions,
             &self.transformers,
-            &self.model_array_default,
         );
+        self.model = Some(value.clone());
         reactions
     }
 
-    pub fn bind_value(
-        mut dst: &mut Value,
+    /// Collects reactions on all differences between previous and next value. There is no previous
+    /// value if bindings did not show anything yet, all of them must react in this case.
+    fn bind_value(
+        schema: &Value,
+        dst: Option<&Value>,
         src: &Value,
         path: &str,
-        arrays_path: &str,
         bindings: &Bindings,
         reactions: &mut Vec<Reaction>,
         transformers: &HashMap<String, Transformer>,
-        default: &HashMap<String, Value>,
-    ) -> bool {
-        match (&mut dst, src) {
-            (Value::Array(current), Value::Array(next)) => {
-                let mut array_changed = false;
-                if current.len() != next.len() {
-                    if let Some(default) = default.get(arrays_path).cloned() {
-                        array_changed = true;
-                        current.resize(next.len(), default);
-                        Self::react(path, src, bindings, reactions, transformers);
-                    } else {
-                        error!("unable to resize array {path} default not found");
-                    }
-                }
-                for (index, dst) in current.iter_mut().enumerate() {
-                    let src = &next[index];
+    ) {
+        if dst == Some(src) {
+            return;
+        }
+        let undefined = Value::Null;
+        match schema {
+            Value::Array(schema) => {
+                let current = dst.and_then(Value::as_array);
+                let next = src.as_array();
+                let resized = match (current, next) {
+                    (Some(current), Some(next)) => current.len() != next.len(),
+                    _ => true,
+                };
+                // items handle changes of content, but transformers can depend on any of them
+                Self::react(path, src, bindings, reactions, transformers, !resized);
+                let next = next.map(Vec::as_slice).unwrap_or_default();
+                for (index, (schema, src)) in schema.iter().zip(next).enumerate() {
                     let path = format!("{path}/{index}");
-                    let changed = Self::bind_value(
-                        dst,
-                        src,
-                        &path,
-                        arrays_path,
-                        bindings,
-                        reactions,
-                        transformers,
-                        default,
-                    );
-                    array_changed = array_changed || changed;
+                    let dst = current.and_then(|current| current.get(index));
+                    Self::bind_value(schema, dst, src, &path, bindings, reactions, transformers);
                 }
-                array_changed
             }
-            (Value::Array(current), Value::Null) => {
-                if current.len() != 0 {
-                    current.clear();
-                    Self::react(
-                        path,
-                        &Value::Array(vec![]),
-                        bindings,
-                        reactions,
-                        transformers,
-                    );
-                    true
-                } else {
-                    false
-                }
-            }
-            (Value::Array(_), _) => {
-                error!("unable to bind '{path}', must be array");
-                false
-            }
-            (Value::Object(object), Value::Object(src)) => {
-                let mut object_changed = false;
-                for (key, dst) in object.iter_mut() {
-                    let path = format!("{path}/{key}");
-                    let arrays_path = format!("{arrays_path}/{key}");
-                    let undefined = Value::Null;
-                    let src = match src.get(key) {
-                        Some(src) => src,
-                        None => {
-                            // error!("unable to bind '{path}', must be specified");
-                            &undefined
-                        }
-                    };
-                    let changed = Self::bind_value(
-                        dst,
-                        src,
-                        &path,
-                        &arrays_path,
-                        bindings,
-                        reactions,
-                        transformers,
-                        default,
-                    );
-                    object_changed = object_changed || changed;
-                }
-                if object_changed {
-                    Self::react(path, &json!({}), bindings, reactions, transformers);
-                }
-                object_changed
-            }
-            (Value::Object(object), Value::Null) => {
-                let mut object_changed = false;
-                for (key, dst) in object.iter_mut() {
+            Value::Object(schema) => {
+                for (key, schema) in schema.iter() {
                     let path = format!("{path}/{key}");
-                    let arrays_path = format!("{arrays_path}/{key}");
-                    let changed = Self::bind_value(
-                        dst,
-                        &Value::Null,
-                        &path,
-                        &arrays_path,
-                        bindings,
-                        reactions,
-                        transformers,
-                        default,
-                    );
-                    object_changed = object_changed || changed;
-                }
-                if object_changed {
-                    Self::react(path, &Value::Null, bindings, reactions, transformers);
-                }
-                object_changed
-            }
-            (dst, src) => {
-                if *dst != src {
-                    **dst = src.clone();
-                    Self::react(path, src, bindings, reactions, transformers);
-                    true
-                } else {
-                    false
+                    let dst = dst.map(|dst| dst.get(key).unwrap_or(&undefined));
+                    let src = src.get(key).unwrap_or(&undefined);
+                    Self::bind_value(schema, dst, src, &path, bindings, reactions, transformers);
                 }
+                Self::react(path, src, bindings, reactions, transformers, false);
             }
+            _ => Self::react(path, src, bindings, reactions, transformers, false),
         }
     }
 
@@ -212,6 +116,7 @@ impl ViewModel {
         bindings: &Bindings,
         reactions: &mut Vec<Reaction>,
         transformers: &HashMap<String, Transformer>,
+        transformed_only: bool,
     ) {
         if let Some(bindings) = bindings.get(path) {
             for binding in bindings {
@@ -228,7 +133,7 @@ impl ViewModel {
                         }
                     }
                     reactions.push(binding.react_value_change(&value));
-                } else {
+                } else if !transformed_only {
                     reactions.push(binding.react_value_change(value))
                 }
             }
@@ -460,13 +365,12 @@ impl ViewModel {
                         }
                     },
                     HandlerArgument::Binder { path, pipe } => {
-                        let mut value = match self.model.pointer(&path).cloned() {
-                            Some(value) => value,
-                            None => {
-                                error!("unable to get value at {path:?}, not found");
-                                continue;
-                            }
-                        };
+                        let mut value = self
+                            .model
+                            .as_ref()
+                            .and_then(|model| model.pointer(&path))
+                            .cloned()
+                            .unwrap_or_default();
                         for name in pipe {
                             match self.transformers.get(name) {
                                 Some(transform) => value = transform(value),
-- 
2.43.0


From 1a9dca1ea949b8fe7a4af4c9c37956104ec7c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 02/53] fix: show repeated elements at the place of their
 template

---
 src/view.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/view.rs b/src/view.rs
index 447100f..785174f 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -240,7 +240,12 @@ impl View {
                 let hidden = &children[cursor..end];
                 for node in shown {
                     if !visible.contains(node) {
-                        self.tree.add_child(parent, *node)?;
+                        // keep template order, siblings can follow repeated element
+                        self.update_tree(Reaction::Reattach {
+                            parent,
+                            node: *node,
+                            visible: true,
+                        })?;
                     }
                 }
                 for node in hidden {
-- 
2.43.0


From 17248121226037ce7692884a60e8c440ca890f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 03/53] fix: accept white space after the name of a transformer

---
 src/html/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index 5f2adaa..ae818ee 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -257,7 +257,7 @@ fn parse_binder(pair: Pair<Rule>) -> Binder {
                     .map(|key| key.as_str().to_string())
                     .collect();
             }
-            Rule::Transformer => pipe.push(next.as_str().to_string()),
+            Rule::Transformer => pipe.push(next.as_str().trim().to_string()),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From 8bed49cd65088fe6b7bc6572ae6386b7a154da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 04/53] fix: resolve the array of a repeat outside of its items

The path was resolved anew for every item, with the name of the previous
item already defined, so an array found through an outer local of the same
name gave a wrong path from the second item on.
---
 src/rendering.rs  | 2 +-
 src/view_model.rs | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index a090120..8fc7bff 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -264,7 +264,7 @@ impl Renderer {
                             .push(binding);
                         let overridden = self.locals.remove(name);
                         for n in 0..count {
-                            let path = self.schema.index(binder, n, &self.locals);
+                            let path = self.schema.index(&array, n);
                             self.locals.insert(name.to_string(), path);
                             let child = child.clone();
                             let child = self.render_node(child)?;
diff --git a/src/view_model.rs b/src/view_model.rs
index 70bbe30..1670355 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -620,9 +620,8 @@ impl Schema {
         Self { value: json!({}) }
     }
 
-    pub fn index(&mut self, binder: &Binder, i: usize, locals: &HashMap<String, String>) -> String {
-        let pointer = binder.to_json_pointer(locals);
-        let pointer = format!("{pointer}/{i}");
+    pub fn index(&mut self, array: &str, i: usize) -> String {
+        let pointer = format!("{array}/{i}");
         Self::define_value(&mut self.value, &pointer);
         pointer
     }
-- 
2.43.0


From 8720ada7d1b58b35eb1ee7a84340ffa11c4ac126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 05/53] fix: values used both as array and as object, items
 selected by index

The expected shape kept only one of both uses and all bindings of the other
one never reacted. An item selected by a fixed index kept its text when the
array became too short.
---
 src/view_model.rs | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 1670355..5c73b34 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -98,9 +98,11 @@ impl ViewModel {
             }
             Value::Object(schema) => {
                 for (key, schema) in schema.iter() {
-                    let path = format!("{path}/{key}");
-                    let dst = dst.map(|dst| dst.get(key).unwrap_or(&undefined));
-                    let src = src.get(key).unwrap_or(&undefined);
+                    // field of object or item of array with fixed index
+                    let field = format!("/{key}");
+                    let path = format!("{path}{field}");
+                    let dst = dst.map(|dst| dst.pointer(&field).unwrap_or(&undefined));
+                    let src = src.pointer(&field).unwrap_or(&undefined);
                     Self::bind_value(schema, dst, src, &path, bindings, reactions, transformers);
                 }
                 Self::react(path, src, bindings, reactions, transformers, false);
@@ -621,6 +623,11 @@ impl Schema {
     }
 
     pub fn index(&mut self, array: &str, i: usize) -> String {
+        if let Some(target) = Self::define_value(&mut self.value, array) {
+            if target.is_null() {
+                *target = json!([]);
+            }
+        }
         let pointer = format!("{array}/{i}");
         Self::define_value(&mut self.value, &pointer);
         pointer
@@ -632,27 +639,27 @@ impl Schema {
         pointer
     }
 
-    fn define_value(mut target: &mut Value, pointer: &str) {
+    fn define_value<'a>(mut target: &'a mut Value, pointer: &str) -> Option<&'a mut Value> {
         if pointer == Schema::THIS {
-            return;
+            return None;
         }
         for token in pointer.split('/').skip(1) {
-            match token.parse::<usize>() {
-                Ok(index) => {
-                    if !target.is_array() {
-                        *target = json!([]);
-                    }
-                    let array = target.as_array_mut().unwrap();
+            match (target, token.parse::<usize>()) {
+                (Value::Array(array), Ok(index)) => {
                     if array.len() <= index {
                         array.resize(index + 1, Value::Null);
                     }
                     target = &mut array[index];
                 }
-                _ => {
-                    if !target.is_object() {
-                        *target = json!({});
+                (next, _) => {
+                    if !next.is_object() {
+                        // array can be used as object too, keep items which are already defined
+                        let items = next.as_array_mut().map(take).unwrap_or_default();
+                        let items = items.into_iter().enumerate();
+                        let items = items.map(|(index, item)| (index.to_string(), item));
+                        *next = Value::Object(items.collect());
                     }
-                    let object = target.as_object_mut().unwrap();
+                    let object = next.as_object_mut().unwrap();
                     if !object.contains_key(token) {
                         object.insert(token.to_string(), Value::Null);
                     }
@@ -660,6 +667,7 @@ impl Schema {
                 }
             }
         }
+        Some(target)
     }
 }
 
-- 
2.43.0


From 316bb9ed86ffa8a9bad2df3360ff8f0dbcf3c0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 06/53] fix: transform numbers which are no durations without
 panic

---
 src/view_model.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 5c73b34..363ec8d 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -675,11 +675,16 @@ fn default_transformers() -> HashMap<String, Transformer> {
     fn duration(value: Value) -> Value {
         match value.as_f64() {
             None => value,
-            Some(value) => {
-                let value = Duration::from_secs_f64(value);
-                let value = format!("{value:?}");
-                Value::String(value)
-            }
+            Some(seconds) => match Duration::try_from_secs_f64(seconds) {
+                Ok(duration) => {
+                    let value = format!("{duration:?}");
+                    Value::String(value)
+                }
+                Err(error) => {
+                    error!("unable to use {seconds} as duration, {error}");
+                    value
+                }
+            },
         }
     }
     let mut transformers = HashMap::new();
-- 
2.43.0


From 1ca08e1c8bd844c874015ef4c1390e056f3a8606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 07/53] fix: handle every event at the pointer position of its
 time

Messages of events before the last pointer move of an update carried the
position of that move, and hovers were not recalculated before a button
event which precedes a move.
---
 src/view_model.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 363ec8d..24fa557 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -148,18 +148,8 @@ impl ViewModel {
         body: NodeId,
         tree: &mut TaffyTree<Element>,
     ) -> Result<Output, ViewError> {
-        let mut has_mouse_move = false;
         let mut events = input.events.clone();
-        for event in events.iter() {
-            match *event {
-                InputEvent::MouseMove(mouse) => {
-                    self.mouse = mouse;
-                    has_mouse_move = true;
-                }
-                _ => {}
-            }
-        }
-        if !has_mouse_move {
+        if !matches!(events.first(), Some(InputEvent::MouseMove(_))) {
             // fake event to recalculate hovers event user not move mouse
             // need because CSS animation can change elements size and we need handle this
             // TODO: proper solution to fix problem
@@ -192,6 +182,7 @@ impl ViewModel {
             match event {
                 InputEvent::Unknown => {}
                 InputEvent::MouseMove(position) => {
+                    self.mouse = position;
                     let previous_update = take(&mut self.elements_under_mouse);
                     self.calculate_mouse_hovers(tree, body, position)?;
                     for node in previous_update.iter().rev() {
-- 
2.43.0


From d5b2a2e964c5c408ba77ec913581b13e4f835aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 08/53] fix: end every drag at the release of the button

A drag without drop target under the pointer never ended, and a drop was
followed by a click of the elements around the target.
---
 src/view_model.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 24fa557..a3b9c89 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -266,20 +266,18 @@ impl ViewModel {
                 }
                 InputEvent::MouseButtonUp(button) => {
                     let elements_under_mouse = self.elements_under_mouse.clone();
+                    let drag = self.drag.take();
+                    let mut dropped = false;
                     for node in elements_under_mouse.iter().rev() {
                         let element = tree.get_element_mut(*node)?;
                         let event = MouseEvent::new(self.mouse, element);
                         self.emit(&element, "onmouseup", event);
-                        if let Some(drag) = self.drag.as_mut() {
-                            if element.listeners.contains_key("ondrop") {
+                        if drag.is_some() {
+                            if !dropped && element.listeners.contains_key("ondrop") {
                                 // valid drop target
-                                let source = drag.source;
                                 let event = MouseEvent::new(self.mouse, element);
                                 self.emit(element, "ondrop", event);
-                                self.drag = None;
-                                let element = tree.get_element_mut(source)?;
-                                let event = MouseEvent::new(self.mouse, element);
-                                self.emit(element, "ondragend", event);
+                                dropped = true;
                             }
                         } else {
                             if button == MouseButtons::Left && element.state.active {
@@ -292,6 +290,11 @@ impl ViewModel {
                             }
                         }
                     }
+                    if let Some(drag) = drag {
+                        let element = tree.get_element_mut(drag.source)?;
+                        let event = MouseEvent::new(self.mouse, element);
+                        self.emit(element, "ondragend", event);
+                    }
                     for node in take(&mut self.elements_in_action) {
                         let element = tree.get_element_mut(node)?;
                         element.state.active = false;
-- 
2.43.0


From 3725edfaa76f31b76d84ab51cb756950649ae336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 09/53] fix: forget styles of rules which no longer apply

---
 src/styles/default.rs | 2 ++
 src/view.rs           | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/styles/default.rs b/src/styles/default.rs
index 3f85bcf..8f1a595 100644
--- a/src/styles/default.rs
+++ b/src/styles/default.rs
@@ -28,6 +28,8 @@ pub(crate) fn reset_element_style(element: &mut Element) {
         align: TextAlign::Start,
     };
     element.self_opacity = 1.0;
+    element.pointer = Pointer::Auto;
+    element.visible = true;
 }
 
 pub fn create_element(node: NodeId) -> Element {
diff --git a/src/view.rs b/src/view.rs
index 785174f..8e40f94 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -2,7 +2,7 @@ use crate::css::{match_style, read_css, read_inline_css, Css, PseudoClassMatcher
 use crate::html::{read_html, ElementBinding, Html};
 use crate::metrics::ViewMetrics;
 use crate::rendering::{Renderer, RendererTranslator};
-use crate::styles::{inherit, Cascade, Scrolling, Sizes, Variables};
+use crate::styles::{default_layout, inherit, Cascade, Scrolling, Sizes, Variables};
 use crate::tree::ViewTreeExtensions;
 use crate::view_model::{Reaction, ViewModel};
 use crate::{BindingParams, Element, ElementStyle, Fonts, Input, Output, Transformer, ViewError};
@@ -375,7 +375,8 @@ impl View {
             // TODO:
             &*ptr
         };
-        let mut layout = self.tree.style(node)?.clone();
+        // nothing of previous styles must remain
+        let mut layout = default_layout();
         let element = unsafe {
             let ptr = self.tree.get_element_mut(node)? as *mut Element;
             &mut *ptr
-- 
2.43.0


From cba9b4b1be2508483836695bda58715748a1f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 10/53] fix: texts of an element hidden by visibility are
 hidden as well

---
 src/view.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/view.rs b/src/view.rs
index 8e40f94..030e9e9 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -384,6 +384,7 @@ impl View {
 
         if element.text.is_some() {
             inherit(parent, element);
+            element.visible = parent.visible;
             return Ok(());
         }
 
-- 
2.43.0


From 0d61e4822af693d02bb488cc153a5b0339fb8004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 11/53] fix: the picture of an image follows its visibility and
 pointer events

---
 src/view.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/view.rs b/src/view.rs
index 030e9e9..038b3ec 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -411,6 +411,11 @@ impl View {
         match element.tag.as_str() {
             "img" => {
                 // self.render_img(current_id, &element, tree);
+                for child in self.tree.children(node)? {
+                    let picture = self.tree.get_element_mut(child)?;
+                    inherit(element, picture);
+                    picture.visible = element.visible;
+                }
             }
             "input" => {
                 // let text = element.html.attrs.get("value").cloned().unwrap_or_default();
-- 
2.43.0


From bdbef86eb1b708df2f81beca1d779e79c72708bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 12/53] fix: match the previous sibling with the + combinator

---
 src/css/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 6619247..ddd6cb4 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -55,7 +55,7 @@ fn find_next_target(combinator: char, target: &mut NodeId, tree: &TaffyTree<Elem
                     .iter()
                     .skip(1)
                     .position(|child| *child == *target)
-                    .and_then(|child| children.get(child - 1).cloned())
+                    .and_then(|child| children.get(child).cloned())
             }),
         _ => {
             // TODO: multi-target selector match
-- 
2.43.0


From 425fc779b31e395b4fb32658463a546e2395cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 13/53] fix: attribute selectors by words, dashes and with
 empty values

---
 src/css/matching.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index ddd6cb4..bb56075 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -102,11 +102,11 @@ fn match_simple_selector(
                 .map(|attr| match operator {
                     Matcher::Exist => true,
                     Matcher::Equal => attr == value,
-                    Matcher::Include => attr.split(" ").any(|word| word == value),
-                    Matcher::DashMatch => attr == value || attr == &format!("-{value}"),
-                    Matcher::Prefix => attr.starts_with(value),
-                    Matcher::Substring => attr.contains(value),
-                    Matcher::Suffix => attr.ends_with(value),
+                    Matcher::Include => attr.split_whitespace().any(|word| word == value),
+                    Matcher::DashMatch => attr == value || attr.starts_with(&format!("{value}-")),
+                    Matcher::Prefix => !value.is_empty() && attr.starts_with(value),
+                    Matcher::Substring => !value.is_empty() && attr.contains(value),
+                    Matcher::Suffix => !value.is_empty() && attr.ends_with(value),
                 })
                 .unwrap_or(false)
         }
@@ -162,7 +162,7 @@ impl Style {
 
 #[inline(always)]
 fn match_class(classes: &str, ident: &str) -> bool {
-    classes.split(" ").any(|class| class == ident)
+    classes.split_whitespace().any(|class| class == ident)
 }
 
 pub trait PseudoClassMatcher {
-- 
2.43.0


From ec55e897792797fb476b9e0f5dcd2efdb930b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 14/53] fix: match rules with combinators on the current tree

---
 src/css/matching.rs | 10 ++++++++++
 src/view.rs         |  9 +++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index bb56075..78c0745 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -150,6 +150,16 @@ impl Style {
         })
     }
 
+    /// Whether the match depends on other elements, which can change, appear or disappear.
+    pub fn has_combinator(&self) -> bool {
+        self.selectors.iter().any(|complex| {
+            complex
+                .selectors
+                .iter()
+                .any(|selector| selector.as_combinator().is_some())
+        })
+    }
+
     pub fn has_pseudo_class_selector(&self) -> bool {
         self.selectors.iter().any(|complex| {
             complex.selectors.iter().any(|selector| match selector {
diff --git a/src/view.rs b/src/view.rs
index 038b3ec..b74a1c2 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -334,10 +334,11 @@ impl View {
             let element = self.tree.get_element_mut(node)?;
             let hints = &element.style_hints;
             let has_pseudo = style.has_pseudo_class_selector();
-            let is_static = !hints.has_dynamic_properties()
-                || (!style.has_attrs_selector(&hints.dynamic_attrs)
-                    && (!hints.has_dynamic_classes || !style.has_class_selector())
-                    && (!hints.has_dynamic_id || !style.has_id_selector()));
+            let is_static = !style.has_combinator()
+                && (!hints.has_dynamic_properties()
+                    || (!style.has_attrs_selector(&hints.dynamic_attrs)
+                        && (!hints.has_dynamic_classes || !style.has_class_selector())
+                        && (!hints.has_dynamic_id || !style.has_id_selector())));
             if matches_ignoring_pseudo {
                 if is_static && !has_pseudo {
                     element.styles.push(ElementStyle::Static(style.clone()));
-- 
2.43.0


From 7321c3deba2b41791b67d968a94c3ec7adeba316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 15/53] fix: match id and class set by a flag

---
 src/rendering.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rendering.rs b/src/rendering.rs
index 8fc7bff..d2d9a34 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -131,6 +131,12 @@ impl Renderer {
                         pipe: binder.pipe.clone(),
                     };
                     self.bindings.entry(path).or_default().push(binding);
+                    if key == "class" {
+                        element.style_hints.has_dynamic_classes = true;
+                    }
+                    if key == "id" {
+                        element.style_hints.has_dynamic_id = true;
+                    }
                     element.style_hints.dynamic_attrs.insert(key);
                 }
                 ElementBinding::Attribute(key, text) => {
-- 
2.43.0


From b39d9f466dc7988c6e7dc537c251ca55efac4b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 16/53] fix: the first value of gap is the one between rows

---
 src/styles/compute_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index 4160380..b59164d 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -175,7 +175,7 @@ impl<'c> Cascade<'c> {
                 overwrite(PropertyKey::Bottom, value);
                 overwrite(PropertyKey::Left, value);
             }
-            (PropertyKey::Gap, [column, row]) => {
+            (PropertyKey::Gap, [row, column]) => {
                 overwrite(PropertyKey::RowGap, row);
                 overwrite(PropertyKey::ColumnGap, column);
             }
-- 
2.43.0


From b769409efed8f78ea842fbbea62ee55c746a61e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 17/53] fix: accept zero for flex factors, radii and iterations

---
 src/styles/apply.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 934bb8d..bf3bbb2 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -234,7 +234,9 @@ impl<'c> Cascade<'c> {
             }
             (PropertyKey::FlexBasis, value) => layout.flex_basis = dimension(value, self)?,
             (PropertyKey::FlexGrow, ComputedValue::Number(value)) => layout.flex_grow = *value,
+            (PropertyKey::FlexGrow, ComputedValue::Zero) => layout.flex_grow = 0.0,
             (PropertyKey::FlexShrink, ComputedValue::Number(value)) => layout.flex_shrink = *value,
+            (PropertyKey::FlexShrink, ComputedValue::Zero) => layout.flex_shrink = 0.0,
             (PropertyKey::ColumnGap, column) => {
                 layout.gap.width = lengthp(column, self)?;
             }
@@ -424,6 +426,7 @@ fn resolve_iterations(
             _ => return Err(CascadeError::ValueNotSupported),
         },
         ComputedValue::Number(number) => AnimationIterations::Number(*number),
+        ComputedValue::Zero => AnimationIterations::Number(0.0),
         _ => return Err(CascadeError::ValueNotSupported),
     };
     Ok(value)
@@ -503,6 +506,7 @@ fn dimension(value: &ComputedValue, cascade: &Cascade) -> Result<Dimension, Casc
 
 fn length(value: &ComputedValue, cascade: &Cascade) -> Result<Length, CascadeError> {
     let value = match value {
+        ComputedValue::Zero => Length::Number(0.0),
         ComputedValue::Dimension(dimension) => {
             let length = parse_dimension_length(dimension, cascade)?;
             Length::Number(length)
-- 
2.43.0


From b2e48f45fd4304c12e967428a084625f84b4aa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 18/53] fix: inset of two and three values

---
 src/styles/compute_style.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index b59164d..1aea764 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -169,6 +169,18 @@ impl<'c> Cascade<'c> {
                 overwrite(PropertyKey::Bottom, bottom);
                 overwrite(PropertyKey::Left, left);
             }
+            (PropertyKey::Inset, [top, h, bottom]) => {
+                overwrite(PropertyKey::Top, top);
+                overwrite(PropertyKey::Right, h);
+                overwrite(PropertyKey::Bottom, bottom);
+                overwrite(PropertyKey::Left, h);
+            }
+            (PropertyKey::Inset, [v, h]) => {
+                overwrite(PropertyKey::Top, v);
+                overwrite(PropertyKey::Right, h);
+                overwrite(PropertyKey::Bottom, v);
+                overwrite(PropertyKey::Left, h);
+            }
             (PropertyKey::Inset, [value]) => {
                 overwrite(PropertyKey::Top, value);
                 overwrite(PropertyKey::Right, value);
-- 
2.43.0


From 8c3b717be0d6108f3dd0a995c09f86ba9e6438aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 19/53] fix: a shorter list of values replaces a longer one

---
 src/styles/compute_style.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index 1aea764..c954752 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -16,7 +16,12 @@ impl<'c> Cascade<'c> {
             return;
         }
         let mut overwrite = |key: PropertyKey, value: &ComputedValue| {
-            style.insert(PropertyDescriptor::new(key, index), value.clone())
+            style.insert(PropertyDescriptor::new(key, index), value.clone());
+            // a list of values replaces the complete previous one
+            let mut rest = index + 1;
+            while style.remove(&PropertyDescriptor::new(key, rest)).is_some() {
+                rest += 1;
+            }
         };
         match (key, shorthand.as_slice()) {
             //
-- 
2.43.0


From 294cb554b5e917233b32d73a4dc20a33fe69f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 20/53] fix: content smaller than its box in one direction must
 not scroll there

---
 src/styles/scrolling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/styles/scrolling.rs b/src/styles/scrolling.rs
index 5c7b80a..a9db294 100644
--- a/src/styles/scrolling.rs
+++ b/src/styles/scrolling.rs
@@ -17,8 +17,8 @@ impl Scrolling {
             .map(|current| [current.x, current.y])
             .unwrap_or_default();
         if content.width > size.width || content.height > size.height {
-            let scroll_x = content.width - size.width;
-            let scroll_y = content.height - size.height;
+            let scroll_x = (content.width - size.width).max(0.0);
+            let scroll_y = (content.height - size.height).max(0.0);
             let scrolling = Scrolling {
                 x: x.min(scroll_x),
                 y: y.min(scroll_y),
-- 
2.43.0


From b4fe9977f48f10435529798c3423ad035cef9665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 21/53] fix: measure texts again when the inherited font
 changes

---
 src/element.rs | 4 ++--
 src/view.rs    | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index 4331351..ad8201f 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -278,7 +278,7 @@ pub enum ObjectFit {
     ScaleDown,
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, PartialEq)]
 pub struct FontFace {
     /// The font family.
     pub family: String,
@@ -297,7 +297,7 @@ pub struct FontFace {
     pub align: TextAlign,
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, PartialEq)]
 pub enum TextAlign {
     Start,
     End,
diff --git a/src/view.rs b/src/view.rs
index b74a1c2..25fe528 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -384,8 +384,13 @@ impl View {
         };
 
         if element.text.is_some() {
+            let font = element.font.clone();
             inherit(parent, element);
             element.visible = parent.visible;
+            if element.font != font {
+                // the text must be measured again
+                self.tree.mark_dirty(node)?;
+            }
             return Ok(());
         }
 
-- 
2.43.0


From 2ff738c2855eab4bc6adb0a806048b310470fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 22/53] fix: variables which depend on themselves have no value

---
 src/styles/compute_function.rs |  9 +++++++--
 src/styles/compute_style.rs    |  2 +-
 src/styles/mod.rs              | 20 +++++++++++++++-----
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/styles/compute_function.rs b/src/styles/compute_function.rs
index 214126e..52f012e 100644
--- a/src/styles/compute_function.rs
+++ b/src/styles/compute_function.rs
@@ -4,10 +4,15 @@ use crate::styles::Cascade;
 use log::error;
 
 impl<'c> Cascade<'c> {
-    pub(crate) fn compute_function(&self, function: &Function, shorthand: &mut Vec<ComputedValue>) {
+    pub(crate) fn compute_function<'v>(
+        &'v self,
+        function: &'v Function,
+        variables: &mut Vec<&'v str>,
+        shorthand: &mut Vec<ComputedValue>,
+    ) {
         let name = function.name.as_str();
         let mut arguments = vec![];
-        self.compute_shorthand(&function.arguments, &mut arguments);
+        self.compute_shorthand(&function.arguments, variables, &mut arguments);
         let computed_value = match (name, arguments.as_slice()) {
             ("rgb", [r, g, b]) => {
                 Color([map_c(r), map_c(g), map_c(b), 255])
diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index c954752..afe1287 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -12,7 +12,7 @@ impl<'c> Cascade<'c> {
         style: &mut ComputedStyle,
     ) {
         let mut shorthand = vec![];
-        if !self.compute_shorthand(definition, &mut shorthand) {
+        if !self.compute_shorthand(definition, &mut vec![], &mut shorthand) {
             return;
         }
         let mut overwrite = |key: PropertyKey, value: &ComputedValue| {
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 76607ea..5c63a3a 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -143,14 +143,20 @@ impl<'c> Cascade<'c> {
         }
     }
 
-    fn compute_shorthand(
-        &self,
-        definition: &[Definition],
+    fn compute_shorthand<'v>(
+        &'v self,
+        definition: &'v [Definition],
+        variables: &mut Vec<&'v str>,
         shorthand: &mut Vec<ComputedValue>,
     ) -> bool {
         for value in definition {
             match value {
                 Definition::Var(name) => {
+                    if variables.contains(&name.as_str()) {
+                        error!("unable to compute variable {name}, it depends on itself");
+                        shorthand.push(ComputedValue::Error);
+                        continue;
+                    }
                     let definition = match self.get_variable(name) {
                         Some(shorthand) => shorthand,
                         None => {
@@ -159,9 +165,13 @@ impl<'c> Cascade<'c> {
                             continue;
                         }
                     };
-                    self.compute_shorthand(definition, shorthand);
+                    variables.push(name);
+                    self.compute_shorthand(definition, variables, shorthand);
+                    variables.pop();
+                }
+                Definition::Function(function) => {
+                    self.compute_function(function, variables, shorthand)
                 }
-                Definition::Function(function) => self.compute_function(function, shorthand),
                 Definition::Explicit(value) => shorthand.push(value.clone()),
             }
         }
-- 
2.43.0


From 5a37dd88e61d4e72d16020e1797435110ffdd73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 23/53] fix: functions of an undefined variable have no value

---
 src/styles/compute_function.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/styles/compute_function.rs b/src/styles/compute_function.rs
index 52f012e..edf11a2 100644
--- a/src/styles/compute_function.rs
+++ b/src/styles/compute_function.rs
@@ -14,6 +14,7 @@ impl<'c> Cascade<'c> {
         let mut arguments = vec![];
         self.compute_shorthand(&function.arguments, variables, &mut arguments);
         let computed_value = match (name, arguments.as_slice()) {
+            (_, arguments) if arguments.contains(&ComputedValue::Error) => ComputedValue::Error,
             ("rgb", [r, g, b]) => {
                 Color([map_c(r), map_c(g), map_c(b), 255])
             }
-- 
2.43.0


From 1edb3c6f15d86ccd11ea0f8c608c8dac9b74cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 24/53] fix: declarations see variables set later on the same
 element

---
 src/styles/mod.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 5c63a3a..166eff2 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -75,23 +75,31 @@ impl<'c> Cascade<'c> {
         inherit::inherit(parent, element);
         // 1: css rules
         let mut computed_style = HashMap::new();
+        let mut blocks: Vec<&[Declaration]> = vec![];
         for style in element.styles.iter() {
             match style {
                 ElementStyle::Static(style) => {
                     self.stats.matches_static += 1;
-                    self.compute_declaration_block(&style.declaration, &mut computed_style);
+                    blocks.push(&style.declaration);
                 }
                 ElementStyle::Dynamic(style) => {
                     self.stats.matches_dynamic += 1;
                     if match_style(&style, node, tree, matcher) {
-                        self.compute_declaration_block(&style.declaration, &mut computed_style);
+                        blocks.push(&style.declaration);
                     }
                 }
             }
         }
         // 2: inline css
         if !element.style.is_empty() {
-            self.compute_declaration_block(&element.style, &mut computed_style);
+            blocks.push(&element.style);
+        }
+        // variables can be used before they are set
+        for block in &blocks {
+            self.set_variables(block);
+        }
+        for block in &blocks {
+            self.compute_declaration_block(block, &mut computed_style);
         }
         // 3: animations
         let time = input.time.as_secs_f32();
@@ -130,10 +138,18 @@ impl<'c> Cascade<'c> {
         self.variables
     }
 
+    fn set_variables(&mut self, block: &[Declaration]) {
+        for declaration in block {
+            if let Declaration::Variable(variable) = declaration {
+                self.set_variable(variable);
+            }
+        }
+    }
+
     fn compute_declaration_block(&mut self, block: &[Declaration], style: &mut ComputedStyle) {
         for declaration in block {
             match declaration {
-                Declaration::Variable(variable) => self.set_variable(variable),
+                Declaration::Variable(_) => {}
                 Declaration::Property(property) => {
                     for index in 0..property.values.len() {
                         self.compute_style(property.key, index, &property.values[index], style);
-- 
2.43.0


From 5ca92d5e6c65bb46f709874543c1e61fabaddec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 25/53] fix: animations with zero duration or long elapsed
 times do not hang

---
 src/animation.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 9f40a49..9c88dc0 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -149,7 +149,10 @@ impl Animator {
     }
 
     pub fn update(&mut self, time: f32) -> Option<f32> {
-        if self.running && self.duration > 0.0 {
+        if self.duration <= 0.0 {
+            return None;
+        }
+        if self.running {
             self.time += time;
         }
         let t = self.time - self.delay;
@@ -160,11 +163,17 @@ impl Animator {
             AnimationIterations::Number(iterations) => t.min(iterations * self.duration),
             AnimationIterations::Infinite => t,
         };
-        // use this loop instead of % to stop at last frame 1.0 (100%)
-        while t > self.duration {
-            t -= self.duration;
+        if t > self.duration {
+            t %= self.duration;
+            // stop at last frame 1.0 (100%)
+            if t == 0.0 {
+                t = self.duration;
+            }
         }
         let x = t / self.duration;
+        if x.is_nan() {
+            return None;
+        }
         Some(x)
     }
 }
-- 
2.43.0


From 167aca052daa28eaa07d0126e627ac787f47140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 26/53] fix: animations from and to 0 are interpolated

---
 src/animation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index 9c88dc0..c7647e0 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -197,6 +197,10 @@ pub fn animate(_key: PropertyKey, a: &ComputedValue, b: &ComputedValue, t: f32)
             }
         }
         (Zero, Percentage(b)) => percentage(&0.0, b, t),
+        (Number(a), Zero) => number(a, &0.0, t),
+        (Zero, Number(b)) => number(&0.0, b, t),
+        (Dimension(a), Zero) => dimension(a, &Dim { value: 0.0, ..*a }, t),
+        (Zero, Dimension(b)) => dimension(&Dim { value: 0.0, ..*b }, b, t),
         (Dimension(a), Dimension(b)) => dimension(a, b, t),
         (Color(a), Color(b)) => color(a, b, t),
         (a, b) => {
-- 
2.43.0


From 610f5fcb5cd67a695a4f88ecbc8be3881c710c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 27/53] fix: animations and their properties end when they are
 not declared any more

---
 src/animation.rs  | 14 ++++++++++++++
 src/element.rs    | 17 ++++++++++++++++-
 src/styles/mod.rs |  4 ++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/animation.rs b/src/animation.rs
index c7647e0..9867a41 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -110,6 +110,20 @@ impl Default for Animator {
 }
 
 impl Animator {
+    pub fn new(name: String) -> Self {
+        Self {
+            name,
+            ..Default::default()
+        }
+    }
+
+    /// Properties which are not declared any more have their initial values.
+    pub fn reset_properties(&mut self) {
+        let time = self.time;
+        *self = Self::new(std::mem::take(&mut self.name));
+        self.time = time;
+    }
+
     pub fn restart(&mut self) {
         self.time = 0.0;
     }
diff --git a/src/element.rs b/src/element.rs
index ad8201f..64e3048 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -4,7 +4,8 @@ use serde::{Deserialize, Serialize};
 use taffy::{Layout, NodeId};
 
 use crate::animation::{Animator, Transition};
-use crate::css::{Declaration, Style};
+use crate::css::ComputedValue::Keyword;
+use crate::css::{ComputedStyle, Declaration, PropertyDescriptor, PropertyKey, Style};
 use crate::styles::Scrolling;
 
 /// The most fundamental object for building a UI, Element contains layout and appearance.
@@ -110,6 +111,20 @@ impl Element {
         &mut self.animators[index]
     }
 
+    /// Keep the animators of the animations which are still declared.
+    pub(crate) fn keep_declared_animators(&mut self, style: &ComputedStyle) {
+        let name_at = |index| PropertyDescriptor::new(PropertyKey::AnimationName, index);
+        let mut declared = vec![];
+        while let Some(Keyword(name)) = style.get(&name_at(declared.len())) {
+            let animator = match self.animators.iter().position(|a| a.name == *name) {
+                Some(current) => self.animators.remove(current),
+                None => Animator::new(name.clone()),
+            };
+            declared.push(animator);
+        }
+        self.animators = declared;
+    }
+
     pub fn get_transition_mut(&mut self, index: usize) -> &mut Transition {
         if index >= self.transitions.len() {
             self.transitions.resize_with(index + 1, Transition::default);
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 166eff2..607e6cd 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -103,6 +103,7 @@ impl<'c> Cascade<'c> {
         }
         // 3: animations
         let time = input.time.as_secs_f32();
+        element.keep_declared_animators(&computed_style);
         for animator in element.animators.iter_mut() {
             // TODO: animation blending
             let animation = match self.css.animations.get(&animator.name) {
@@ -121,6 +122,9 @@ impl<'c> Cascade<'c> {
         for transition in element.transitions.iter_mut() {
             transition.play(time, &mut computed_style);
         }
+        for animator in element.animators.iter_mut() {
+            animator.reset_properties();
+        }
         for (property, value) in &computed_style {
             if let Err(error) = self.apply(property.key, property.index, &value, layout, element) {
                 error!("unable to apply {property:?}:{value:?} because of {error:?}");
-- 
2.43.0


From 67cba3c769ff3b8594174289643020883d7ae1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 28/53] fix: animations of an inherited color or font size
 start from the inherited value

---
 src/styles/compute_animation_tracks.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/styles/compute_animation_tracks.rs b/src/styles/compute_animation_tracks.rs
index c15a24f..29c1039 100644
--- a/src/styles/compute_animation_tracks.rs
+++ b/src/styles/compute_animation_tracks.rs
@@ -1,5 +1,6 @@
 use crate::css::{
-    Animation, AnimationTrack, ComputedStyle, Declaration, PropertyDescriptor,
+    Animation, AnimationTrack, ComputedStyle, ComputedValue, Declaration, Dim, PropertyDescriptor,
+    PropertyKey, Units,
 };
 use crate::styles::initial::initial;
 use crate::styles::Cascade;
@@ -7,6 +8,18 @@ use log::error;
 use std::collections::{BTreeMap, HashMap, HashSet};
 
 impl<'c> Cascade<'c> {
+    /// Value of a property which is not declared for the element.
+    fn unset(&self, key: PropertyKey) -> ComputedValue {
+        match key {
+            PropertyKey::Color => ComputedValue::Color(self.sizes.parent_color),
+            PropertyKey::FontSize => ComputedValue::Dimension(Dim {
+                value: self.sizes.parent_font_size,
+                unit: Units::Px,
+            }),
+            key => initial(key),
+        }
+    }
+
     pub(crate) fn compute_animation_tracks(
         &self,
         animation: &Animation,
@@ -40,7 +53,7 @@ impl<'c> Cascade<'c> {
             if !from.contains_key(property) {
                 let value = match style.get(property) {
                     Some(value) => value.clone(),
-                    None => initial(property.key),
+                    None => self.unset(property.key),
                 };
                 from.insert(*property, value);
             }
@@ -50,7 +63,7 @@ impl<'c> Cascade<'c> {
             if !to.contains_key(&property) {
                 let value = match style.get(&property) {
                     Some(value) => value.clone(),
-                    None => initial(property.key),
+                    None => self.unset(property.key),
                 };
                 to.insert(*property, value);
             }
-- 
2.43.0


From 9fb7bf89e2e535b53303809640fa629a5ca5a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 29/53] fix: animations of a border width start from the
 initial width

---
 src/styles/initial.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/styles/initial.rs b/src/styles/initial.rs
index b115fb4..1bc05be 100644
--- a/src/styles/initial.rs
+++ b/src/styles/initial.rs
@@ -38,20 +38,20 @@ pub fn initial(key: PropertyKey) -> ComputedValue {
         PropertyKey::BorderBottomLeftRadius => zero(),
         PropertyKey::BorderBottomRightRadius => zero(),
         PropertyKey::BorderBottomStyle => keyword("none"),
-        PropertyKey::BorderBottomWidth => keyword("medium"),
+        PropertyKey::BorderBottomWidth => zero(),
         PropertyKey::BorderCollapse => keyword("separate"),
         PropertyKey::BorderLeftColor => keyword("currentColor"),
         PropertyKey::BorderLeftStyle => keyword("none"),
-        PropertyKey::BorderLeftWidth => keyword("medium"),
+        PropertyKey::BorderLeftWidth => zero(),
         PropertyKey::BorderRightColor => keyword("currentColor"),
         PropertyKey::BorderRightStyle => keyword("none"),
-        PropertyKey::BorderRightWidth => keyword("medium"),
+        PropertyKey::BorderRightWidth => zero(),
         PropertyKey::BorderSpacing => zero(),
         PropertyKey::BorderTopColor => keyword("currentColor"),
         PropertyKey::BorderTopLeftRadius => zero(),
         PropertyKey::BorderTopRightRadius => zero(),
         PropertyKey::BorderTopStyle => keyword("none"),
-        PropertyKey::BorderTopWidth => keyword("medium"),
+        PropertyKey::BorderTopWidth => zero(),
         PropertyKey::Bottom => keyword("auto"),
         PropertyKey::BoxShadow => keyword("none"),
         PropertyKey::BoxSizing => keyword("content-box"),
-- 
2.43.0


From 8f44fe3a012c29b8c2d2b35b1248bfc2b45748ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 30/53] fix: transitions keep the old value during the delay,
 do not hang and move all values of a list

---
 src/animation.rs | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 9867a41..a125376 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -8,7 +8,7 @@ use crate::Rgba;
 pub struct Transition {
     pub key: Option<PropertyKey>,
     pub animator: Animator,
-    pub range: Option<(ComputedValue, ComputedValue)>,
+    pub ranges: Vec<(ComputedValue, ComputedValue)>,
 }
 
 impl Default for Transition {
@@ -16,14 +16,14 @@ impl Default for Transition {
         Self {
             key: None,
             animator: Default::default(),
-            range: None,
+            ranges: vec![],
         }
     }
 }
 
 impl Transition {
     pub fn init_after_style_applied(&mut self, style: &mut ComputedStyle) {
-        if self.range.is_some() {
+        if !self.ranges.is_empty() {
             return;
         }
         let key = match self.key {
@@ -37,7 +37,7 @@ impl Transition {
                 Some(value) => value,
                 None => return,
             };
-            self.range = Some((value.clone(), value.clone()));
+            self.ranges.push((value.clone(), value.clone()));
             index += 1;
         }
     }
@@ -47,33 +47,41 @@ impl Transition {
             Some(key) => key,
             None => return,
         };
+        if self.animator.duration <= 0.0 {
+            self.ranges.clear();
+            return;
+        }
         let time = match self.animator.update(time) {
             Some(time) => time,
-            None => return,
+            // the old value is kept during the delay
+            None => 0.0,
         };
+        let mut ranges = vec![];
+        let mut changed = false;
         let mut index = 0;
         loop {
             let descriptor = PropertyDescriptor::new(key, index);
             let value = match style.get(&descriptor) {
-                Some(value) => value,
-                None => return,
+                Some(value) => value.clone(),
+                None => break,
             };
-            let (from, to) = match self.range.as_ref() {
-                Some(range) => range,
-                None => {
-                    continue;
+            let current = match self.ranges.get(index) {
+                Some((from, to)) => {
+                    changed |= to != &value;
+                    animate(key, &from, &to, time)
                 }
+                None => value.clone(),
             };
-            let current = animate(key, &from, &to, time);
-            if to != value {
-                self.range = Some((current.clone(), value.clone()));
-                self.animator.restart();
-            }
-            if &current != value {
-                style.insert(descriptor, current);
+            if current != value {
+                style.insert(descriptor, current.clone());
             }
+            ranges.push((current, value));
             index += 1;
         }
+        if changed || ranges.len() != self.ranges.len() {
+            self.ranges = ranges;
+            self.animator.restart();
+        }
     }
 }
 
-- 
2.43.0


From 27364505e999d4bcbf67d7e4e83ed1a9bf09a655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 31/53] fix: transitions end when they are not declared any
 more

---
 src/element.rs    | 15 +++++++++++++++
 src/styles/mod.rs |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/src/element.rs b/src/element.rs
index 64e3048..5c6cb14 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -125,6 +125,21 @@ impl Element {
         self.animators = declared;
     }
 
+    /// Keep the transitions of the properties which are still declared.
+    pub(crate) fn keep_declared_transitions(&mut self, style: &ComputedStyle) {
+        let property_at = |index| PropertyDescriptor::new(PropertyKey::TransitionProperty, index);
+        let mut declared = vec![];
+        while let Some(Keyword(name)) = style.get(&property_at(declared.len())) {
+            let key = PropertyKey::parse(name);
+            let transition = match self.transitions.iter().position(|t| t.key == key) {
+                Some(current) => self.transitions.remove(current),
+                None => Transition::default(),
+            };
+            declared.push(transition);
+        }
+        self.transitions = declared;
+    }
+
     pub fn get_transition_mut(&mut self, index: usize) -> &mut Transition {
         if index >= self.transitions.len() {
             self.transitions.resize_with(index + 1, Transition::default);
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 607e6cd..fcf2b8a 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -119,12 +119,16 @@ impl<'c> Cascade<'c> {
         }
         // TODO: !important
         // 4: transitions
+        element.keep_declared_transitions(&computed_style);
         for transition in element.transitions.iter_mut() {
             transition.play(time, &mut computed_style);
         }
         for animator in element.animators.iter_mut() {
             animator.reset_properties();
         }
+        for transition in element.transitions.iter_mut() {
+            transition.animator.reset_properties();
+        }
         for (property, value) in &computed_style {
             if let Err(error) = self.apply(property.key, property.index, &value, layout, element) {
                 error!("unable to apply {property:?}:{value:?} because of {error:?}");
-- 
2.43.0


From 3a1062b068dc48f90611fa72c397f10be8594bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 32/53] fix: looking up an id finds the shown element which has
 it now

---
 src/rendering.rs | 39 ++++++++++++++++++++++-----------------
 src/view.rs      | 33 +++++++++++++++++++++++++++++----
 2 files changed, 51 insertions(+), 21 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index d2d9a34..3af21c7 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -14,7 +14,7 @@ pub struct Renderer {
     pub locals: HashMap<String, String>,
     pub schema: Schema,
     pub templates: HashMap<String, Html>,
-    pub static_id: HashMap<String, NodeId>,
+    pub static_id: HashMap<String, Vec<NodeId>>,
     pub translator: Box<dyn RendererTranslator>,
 }
 
@@ -99,6 +99,25 @@ impl Renderer {
         Ok(node)
     }
 
+    fn render_attribute(&mut self, element: &mut Element, key: String, value: String) {
+        if key == "style" {
+            match read_inline_css(&value) {
+                Ok(style) => element.style = style,
+                Err(error) => {
+                    error!(
+                        "unable to parse inline style of {}, {error:?}",
+                        element.tag
+                    );
+                }
+            }
+        }
+        if key == "id" {
+            let nodes = self.static_id.entry(value.clone()).or_default();
+            nodes.push(element.node);
+        }
+        element.attrs.insert(key, value);
+    }
+
     fn render_element(&mut self, template: Html) -> Result<NodeId, ViewError> {
         let layout = default_layout();
         let node = self.tree.new_leaf(layout)?;
@@ -107,21 +126,7 @@ impl Renderer {
         for binding in template.bindings {
             match binding {
                 ElementBinding::None(key, value) => {
-                    if key == "style" {
-                        match read_inline_css(&value) {
-                            Ok(style) => element.style = style,
-                            Err(error) => {
-                                error!(
-                                    "unable to parse inline style of {}, {error:?}",
-                                    element.tag
-                                );
-                            }
-                        }
-                    }
-                    if key == "id" {
-                        self.static_id.insert(value.clone(), node);
-                    }
-                    element.attrs.insert(key, value);
+                    self.render_attribute(&mut element, key, value);
                 }
                 ElementBinding::Tag(key, binder) => {
                     let path = self.schema.field(&binder, &mut self.locals);
@@ -145,7 +150,7 @@ impl Renderer {
                             "element {} attribute {} has no bindings, you can just use HTML tag",
                             element.tag, key
                         );
-                        element.attrs.insert(key, value);
+                        self.render_attribute(&mut element, key, value);
                         continue;
                     }
                     let spans = text
diff --git a/src/view.rs b/src/view.rs
index 25fe528..fe544cc 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -24,7 +24,8 @@ pub struct View {
     resources: String,
     pub fonts: Box<dyn Fonts>,
     metrics: ViewMetrics,
-    identified: HashMap<String, NodeId>,
+    /// Elements which have or had the identifier.
+    identified: HashMap<String, Vec<NodeId>>,
 }
 
 impl View {
@@ -258,6 +259,9 @@ impl View {
                 let element = self.tree.get_element_mut(node)?;
                 if tag {
                     element.attrs.insert(key.clone(), key.clone());
+                    if key == "id" {
+                        self.identify(key, node);
+                    }
                 } else {
                     element.attrs.remove(&key);
                 };
@@ -285,8 +289,9 @@ impl View {
                     }
                 }
                 if key == "id" {
-                    self.identified.insert(value.clone(), node);
+                    self.identify(value.clone(), node);
                 }
+                let element = self.tree.get_element(node)?;
                 match (element.tag.as_str(), key.as_str()) {
                     ("img", "src") => self.model.update_img_src(node, value, &mut self.tree)?,
                     _ => {}
@@ -457,8 +462,28 @@ impl View {
     #[inline(always)]
     pub fn get_element_by_id(&self, id: &str) -> Option<&Element> {
         self.identified
-            .get(id)
-            .and_then(|node| self.tree.get_element(*node).ok())
+            .get(id)?
+            .iter()
+            .filter(|node| self.is_shown(**node))
+            .filter_map(|node| self.tree.get_element(*node).ok())
+            .find(|element| element.attrs.get("id").map(String::as_str) == Some(id))
+    }
+
+    fn identify(&mut self, id: String, node: NodeId) {
+        let nodes = self.identified.entry(id).or_default();
+        if !nodes.contains(&node) {
+            nodes.push(node);
+        }
+    }
+
+    fn is_shown(&self, mut node: NodeId) -> bool {
+        while node != self.body {
+            match self.tree.parent(node) {
+                Some(parent) => node = parent,
+                None => return false,
+            }
+        }
+        true
     }
 
     pub fn body(&self) -> Fragment {
-- 
2.43.0


From 43ae0b805e2e893afd1db782347073b3811acfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 33/53] fix: inline styles may start with white space or a
 comment

---
 src/css/css.pest  | 2 ++
 src/css/reader.rs | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 2c0ebde..de10a5d 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -68,6 +68,8 @@ DeclarationBlock = {
 
 Declarations = { Declaration* }
 
+InlineDeclarations = _{ SOI ~ Declarations }
+
 Declaration = { Property ~ ":" ~ Values ~ ";" }
 
 Property = { (ASCII_ALPHA | "-" | "_")+ }
diff --git a/src/css/reader.rs b/src/css/reader.rs
index cab59f8..93ff13e 100644
--- a/src/css/reader.rs
+++ b/src/css/reader.rs
@@ -28,7 +28,7 @@ impl From<Error<Rule>> for ReaderError {
 }
 
 pub fn read_inline_css(block: &str) -> Result<Vec<Declaration>, ReaderError> {
-    let block = CssParser::parse(Rule::Declarations, block)?
+    let block = CssParser::parse(Rule::InlineDeclarations, block)?
         .next()
         .ok_or(ReaderError::EmptyStyleSheet)?;
     Ok(read_declarations(block))
-- 
2.43.0


From 06ccde8961f5c5a131091e82b2c6a135b1a9e0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:46 +0000
Subject: [PATCH 34/53] fix: values of attributes keep their white space

---
 src/html/html.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index abaa099..317c69b 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -73,7 +73,7 @@ AliasBinding = { "+" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
 TagBinding = { "#" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
 
-AttributeBinding = { "@" ~ Key ~ "=" ~ "\"" ~ (Binder | DoubleQuotedAttributeString)+ ~ "\"" }
+AttributeBinding = ${ "@" ~ Key ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ (Binder | DoubleQuotedAttributeString)+ ~ "\"" }
 
 DoubleQuotedAttributeString = @{ DoubleQuotedAttributeChar+ }
 
@@ -94,7 +94,7 @@ RepeatBinding = { "*" ~ Key ~ "=" ~ "\"" ~ Count ~ Binder ~ "\"" }
 Count = { ASCII_DIGIT* }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
-DoubleQuoted = { Name ~ "=" ~ "\"" ~ Value ~ "\"" }
+DoubleQuoted = ${ Name ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ Value ~ "\"" }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
 Unquoted = { Name ~ "=" ~ Value }
-- 
2.43.0


From 3f46a8fa7f4dec06152e625800c7c039566f660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:58 +0000
Subject: [PATCH 35/53] fix: tags starting with the name of a void element are
 no void elements

---
 src/html/html.pest | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index 317c69b..63c1797 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -20,8 +20,8 @@ Children = { Content* }
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-elements
 Void = { "<" ~ VoidTag ~ Attributes ~ ("/")? ~ ">" }
 
-VoidTag = {
-    ^"area"
+VoidTag = @{
+    (^"area"
     | ^"base"
     | ^"br"
     | ^"col"
@@ -36,7 +36,7 @@ VoidTag = {
     | ^"param"
     | ^"source"
     | ^"track"
-    | ^"wbr"
+    | ^"wbr") ~ !TChar
 }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-elements
-- 
2.43.0


From 85f2664cf1deed39cfa3ac91aa58714612b541e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:02 +0000
Subject: [PATCH 36/53] fix: unquoted attribute values end at white space and
 the end of the tag

---
 src/html/html.pest | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index 63c1797..c5d973c 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -97,7 +97,9 @@ Count = { ASCII_DIGIT* }
 DoubleQuoted = ${ Name ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ Value ~ "\"" }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
-Unquoted = { Name ~ "=" ~ Value }
+Unquoted = { Name ~ "=" ~ UnquotedValue }
+
+UnquotedValue = @{ (!("\"" | "'" | "=" | "<" | ">" | "`" | WHITESPACE) ~ ANY)+ }
 
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
 Empty = { Name }
-- 
2.43.0


From c2ebef3269b53c6c98b20c27c6084f1011ab1ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 37/53] fix: a line break between a word and a binding
 separates them

---
 src/html/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index ae818ee..1e69a38 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -178,7 +178,7 @@ fn parse_content(pair: Pair<Rule>, is_last_content: bool) -> Html {
             let mut spans = vec![];
 
             for index in 0..count {
-                let _is_next_binding = if let Some(TextSpan::Binder(_)) = prefetch.get(index + 1) {
+                let is_next_binding = if let Some(TextSpan::Binder(_)) = prefetch.get(index + 1) {
                     true
                 } else {
                     false
@@ -190,7 +190,7 @@ fn parse_content(pair: Pair<Rule>, is_last_content: bool) -> Html {
                         for (index, fragment) in string.split("\n").enumerate() {
                             if index != 0 {
                                 let fragment = fragment.trim_start();
-                                if !fragment.is_empty() || !is_last_content {
+                                if !fragment.is_empty() || !is_last_content || is_next_binding {
                                     text.push(' ');
                                     text.push_str(fragment);
                                 }
-- 
2.43.0


From 24a7901a6586283181c125502d51162fae53ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 38/53] fix: templates which use themselves are rejected
 instead of overflowing the stack

---
 src/rendering.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 3af21c7..389c431 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -227,12 +227,14 @@ impl Renderer {
             "wbr" => {}
             _ => {
                 for child in template.children {
+                    let mut used = None;
                     let child = if let Some((id, mut bindings)) = child.as_template_link() {
                         let mut template = self
                             .templates
-                            .get(&id)
-                            .ok_or(ViewError::TemplateNotFound(id))?
-                            .clone();
+                            .remove(&id)
+                            .ok_or(ViewError::TemplateNotFound(id.clone()))?;
+                        // a template is not available inside of itself
+                        used = Some((id, template.clone()));
                         // handle link bindings first
                         bindings.extend(template.bindings);
                         template.bindings = bindings;
@@ -298,6 +300,10 @@ impl Renderer {
                             self.locals.remove(&key);
                         }
                     }
+
+                    if let Some((id, template)) = used {
+                        self.templates.insert(id, template);
+                    }
                 }
             }
         }
-- 
2.43.0


From 8640850b6bccbb84a9a824a8e6612cf512ee036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:01 +0000
Subject: [PATCH 39/53] fix: an alias defined twice on an element ends with the
 element

---
 src/rendering.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 389c431..238b91c 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -247,10 +247,9 @@ impl Renderer {
                     for binding in &child.bindings {
                         if let ElementBinding::Alias(name, binder) = binding {
                             let path = self.schema.field(binder, &mut self.locals);
-                            overridden.insert(
-                                name.to_string(),
-                                self.locals.insert(name.to_string(), path),
-                            );
+                            let previous = self.locals.insert(name.to_string(), path);
+                            // the first definition has overridden the outer one
+                            overridden.entry(name.to_string()).or_insert(previous);
                         }
                     }
 
-- 
2.43.0


From 7193f40d5f4617a2d7e5774a54a19040b0424391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 40/53] fix: templates may consist of the use of another
 template

---
 src/rendering.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 238b91c..7b6e332 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -226,22 +226,21 @@ impl Renderer {
             "track" => {}
             "wbr" => {}
             _ => {
-                for child in template.children {
-                    let mut used = None;
-                    let child = if let Some((id, mut bindings)) = child.as_template_link() {
+                for mut child in template.children {
+                    let mut used = vec![];
+                    // content of a template may be a link again
+                    while let Some((id, mut bindings)) = child.as_template_link() {
                         let mut template = self
                             .templates
                             .remove(&id)
                             .ok_or(ViewError::TemplateNotFound(id.clone()))?;
                         // a template is not available inside of itself
-                        used = Some((id, template.clone()));
+                        used.push((id, template.clone()));
                         // handle link bindings first
                         bindings.extend(template.bindings);
                         template.bindings = bindings;
-                        template
-                    } else {
-                        child
-                    };
+                        child = template;
+                    }
 
                     let mut overridden = HashMap::new();
                     for binding in &child.bindings {
@@ -300,7 +299,7 @@ impl Renderer {
                         }
                     }
 
-                    if let Some((id, template)) = used {
+                    for (id, template) in used {
                         self.templates.insert(id, template);
                     }
                 }
-- 
2.43.0


From 2f9ee8e30608576103ec2566625e887c148f1137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 41/53] fix: pictures of images cover the content box of the
 image

---
 src/rendering.rs |  4 ----
 src/view.rs      | 11 +++++++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 7b6e332..64f7881 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -87,10 +87,6 @@ impl Renderer {
             width: Dimension::Percent(1.0),
             height: Dimension::Percent(1.0),
         };
-        layout.min_size = Size {
-            width: Dimension::Percent(1.0),
-            height: Dimension::Percent(1.0),
-        };
         let node = self.tree.new_leaf(layout)?;
         let mut element = create_element(node);
         element.get_background_mut(0).image = Some(src);
diff --git a/src/view.rs b/src/view.rs
index fe544cc..b529080 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -167,8 +167,19 @@ impl View {
             location.y -= scrolling.y;
         }
         opacity = element.opacity;
+        let is_img = element.tag == "img";
         for child in self.tree.children(node)? {
             self.compute_final_positions_and_clipping(child, location, opacity, clipping)?;
+            if is_img {
+                // percentages of the picture do not resolve for every kind of size
+                let picture = self.tree.get_element_mut(child)?;
+                let edges = layout.border + layout.padding;
+                picture.position = [location.x + edges.left, location.y + edges.top];
+                picture.size = [
+                    (layout.size.width - edges.left - edges.right).max(0.0),
+                    (layout.size.height - edges.top - edges.bottom).max(0.0),
+                ];
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 815e214d1592019e3bab9f30e2b35f84282eb03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 42/53] fix: read angle brackets in texts and bound attribute
 values

---
 src/html/html.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index c5d973c..8bb7627 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -51,7 +51,7 @@ Text = ${ (Binder | String)+  }
 String = @{ SChar+ }
 
 SChar = {
-    !("<" | ">" | "{") ~ ANY
+    !("<" | "{") ~ ANY
 }
 
 Attributes = { Attribute* }
@@ -78,7 +78,7 @@ AttributeBinding = ${ "@" ~ Key ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ (Bind
 DoubleQuotedAttributeString = @{ DoubleQuotedAttributeChar+ }
 
 DoubleQuotedAttributeChar = {
-    !("<" | ">" | "{" | "\"") ~ ANY
+    !("{" | "\"") ~ ANY
 }
 
 CallbackBinding = { "^" ~ Key ~ "=" ~ "\"" ~ (Event | Binder | Key)* ~ "\"" }
-- 
2.43.0


From 7ee9235748566b5648cab76398e1c21f3ece36fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 43/53] fix: carriage returns of line breaks become part of
 texts

---
 src/html/reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index 1e69a38..00bd79f 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -187,6 +187,7 @@ fn parse_content(pair: Pair<Rule>, is_last_content: bool) -> Html {
                 match span {
                     TextSpan::String(string) => {
                         let mut text = String::new();
+                        let string = string.replace("\r\n", "\n");
                         for (index, fragment) in string.split("\n").enumerate() {
                             if index != 0 {
                                 let fragment = fragment.trim_start();
-- 
2.43.0


From a0bbf26617baf5abcfb4d5b6fbb50ee64c29ac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:51 +0000
Subject: [PATCH 44/53] fix: nested variable fallbacks take exponential time to
 reject

---
 src/css/css.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index de10a5d..3c28a7f 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -80,7 +80,7 @@ Values = { Shorthand ~ ("," ~ Shorthand)* }
 
 Shorthand = ${ Value ~ (WHITESPACE ~ Value)* }
 
-Value = _{ Var | Function | Explicit }
+Value = _{ Var | !("var" ~ "(") ~ Function | Explicit }
 
 Function = {
     Ident ~ "(" ~ ")" |
-- 
2.43.0


From 19408692cf1afd448e5333f127ea2721607c6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:38 +0000
Subject: [PATCH 45/53] fix: read white space and comments between values and
 inside of functions

---
 src/css/css.pest | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 3c28a7f..3d84edd 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -78,16 +78,18 @@ Ident = { (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }
 
 Values = { Shorthand ~ ("," ~ Shorthand)* }
 
-Shorthand = ${ Value ~ (WHITESPACE ~ Value)* }
+Shorthand = ${ Value ~ (Space+ ~ Value)* }
+
+Space = _{ WHITESPACE | COMMENT }
 
 Value = _{ Var | !("var" ~ "(") ~ Function | Explicit }
 
 Function = {
-    Ident ~ "(" ~ ")" |
-    Ident ~ "(" ~ Value ~ ("," ~ WHITESPACE* ~ Value)* ~ ")"
+    Ident ~ "(" ~ Space* ~ ")" |
+    Ident ~ "(" ~ Space* ~ Value ~ (Space* ~ "," ~ Space* ~ Value)* ~ Space* ~ ")"
 }
 
-Var = { "var" ~ "(" ~ Keyword ~ ("," ~ Value)? ~ ")" }
+Var = { "var" ~ "(" ~ Space* ~ Keyword ~ (Space* ~ "," ~ Space* ~ Value)? ~ Space* ~ ")" }
 
 Explicit = {
     Color
-- 
2.43.0


From 7900e20a71f549c01f4b9b691dbe440470d03525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 46/53] fix: read white space inside of attribute selectors

---
 src/css/css.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index 3d84edd..bca61d9 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -43,8 +43,8 @@ Class = { "." ~ Ident }
 Type = { Ident }
 
 Attribute = {
-    "[" ~ Ident ~ "]" |
-    "[" ~ Ident ~ Matcher ~ (String | Ident) ~ Modifier? ~ "]"
+    "[" ~ Space* ~ Ident ~ Space* ~ "]" |
+    "[" ~ Space* ~ Ident ~ Space* ~ Matcher ~ Space* ~ (String | Ident) ~ Space* ~ (Modifier ~ Space*)? ~ "]"
 }
 
 Matcher = { ("~" | "|" | "^" | "$" | "*")? ~ "=" }
-- 
2.43.0


From 16fbb93ae278de0b007e5da9a3fc7641f79753fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:43 +0000
Subject: [PATCH 47/53] fix: read digits in names of variables, animations and
 properties

---
 src/css/css.pest | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/css/css.pest b/src/css/css.pest
index bca61d9..c2bfecb 100644
--- a/src/css/css.pest
+++ b/src/css/css.pest
@@ -72,7 +72,7 @@ InlineDeclarations = _{ SOI ~ Declarations }
 
 Declaration = { Property ~ ":" ~ Values ~ ";" }
 
-Property = { (ASCII_ALPHA | "-" | "_")+ }
+Property = { (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }
 
 Ident = { (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }
 
@@ -118,7 +118,10 @@ Number = { (ASCII_DIGIT | "-" | ".")+ }
 
 Unit = { ASCII_ALPHA+ }
 
-Keyword = { "-"? ~ "-"? ~ (ASCII_ALPHA | "-" | "_")+ }
+Keyword = {
+    "--" ~ (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ |
+    "-"? ~ (ASCII_ALPHA | "_") ~ (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")*
+}
 
 String = { "\"" ~ StringLiteral ~ "\"" }
 
-- 
2.43.0


From 29141d0e174c18ade795b1650324fb1bd7d1a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:57 +0000
Subject: [PATCH 48/53] fix: colors of three or four hex digits are white

---
 src/css/reader.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/css/reader.rs b/src/css/reader.rs
index 93ff13e..59a7981 100644
--- a/src/css/reader.rs
+++ b/src/css/reader.rs
@@ -271,6 +271,13 @@ fn read_number(pair: Pair<Rule>) -> f32 {
 fn read_color(pair: Pair<Rule>) -> [u8; 4] {
     let value = pair.as_str();
     match value.len() {
+        4 | 5 if value.starts_with("#") => {
+            let mut color = [255; 4];
+            for (channel, digit) in color.iter_mut().zip(value[1..].chars()) {
+                *channel = 17 * digit.to_digit(16).unwrap_or(0) as u8;
+            }
+            color
+        }
         7 if value.starts_with("#") => {
             let r = u8::from_str_radix(&value[1..3], 16).unwrap_or(0);
             let g = u8::from_str_radix(&value[3..5], 16).unwrap_or(0);
-- 
2.43.0


From a0a6ed6d6957d06c84b2876f8be4e4b6b0ab3823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:53 +0000
Subject: [PATCH 49/53] fix: a cycle of variables using each other several
 times hung, parts of shorthands with undefined variables were applied

---
 src/styles/compute_function.rs | 11 ++++++----
 src/styles/compute_style.rs    | 16 +++++++++++---
 src/styles/mod.rs              | 40 +++++++++++++++++++++++++---------
 3 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/src/styles/compute_function.rs b/src/styles/compute_function.rs
index edf11a2..c59a1cf 100644
--- a/src/styles/compute_function.rs
+++ b/src/styles/compute_function.rs
@@ -1,18 +1,20 @@
 use crate::css::ComputedValue::{Color, Number, Str};
 use crate::css::{ComputedValue, Function};
-use crate::styles::Cascade;
+use crate::styles::{Cascade, UsedVariables};
 use log::error;
 
 impl<'c> Cascade<'c> {
     pub(crate) fn compute_function<'v>(
         &'v self,
         function: &'v Function,
-        variables: &mut Vec<&'v str>,
+        variables: &mut UsedVariables<'v>,
         shorthand: &mut Vec<ComputedValue>,
-    ) {
+    ) -> bool {
         let name = function.name.as_str();
         let mut arguments = vec![];
-        self.compute_shorthand(&function.arguments, variables, &mut arguments);
+        if !self.compute_shorthand(&function.arguments, variables, &mut arguments) {
+            return false;
+        }
         let computed_value = match (name, arguments.as_slice()) {
             (_, arguments) if arguments.contains(&ComputedValue::Error) => ComputedValue::Error,
             ("rgb", [r, g, b]) => {
@@ -29,6 +31,7 @@ impl<'c> Cascade<'c> {
             }
         };
         shorthand.push(computed_value);
+        true
     }
 }
 
diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index afe1287..90d5647 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -1,6 +1,6 @@
 use crate::css::ComputedValue::{Keyword, Time};
 use crate::css::{ComputedStyle, ComputedValue, Definition, PropertyDescriptor, PropertyKey};
-use crate::styles::Cascade;
+use crate::styles::{Cascade, UsedVariables};
 use log::error;
 
 impl<'c> Cascade<'c> {
@@ -12,8 +12,18 @@ impl<'c> Cascade<'c> {
         style: &mut ComputedStyle,
     ) {
         let mut shorthand = vec![];
-        if !self.compute_shorthand(definition, &mut vec![], &mut shorthand) {
-            return;
+        if !self.compute_shorthand(definition, &mut UsedVariables::default(), &mut shorthand) {
+            // no part of the declaration can be used
+            let count = match key {
+                PropertyKey::Transition | PropertyKey::Animation => 4,
+                PropertyKey::Border
+                | PropertyKey::BorderTop
+                | PropertyKey::BorderRight
+                | PropertyKey::BorderBottom
+                | PropertyKey::BorderLeft => 3,
+                _ => 1,
+            };
+            shorthand = vec![ComputedValue::Error; count];
         }
         let mut overwrite = |key: PropertyKey, value: &ComputedValue| {
             style.insert(PropertyDescriptor::new(key, index), value.clone());
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index fcf2b8a..4eb1575 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -35,6 +35,17 @@ pub struct Cascade<'c> {
 
 pub type Variables = HashMap<String, Shorthand>;
 
+/// Limits values of variables which use other variables several times.
+const MAX_USED_VARIABLES: usize = 1000;
+
+/// Variables used to compute one value.
+#[derive(Default)]
+pub(crate) struct UsedVariables<'v> {
+    /// Variables which are being computed, each one is used by the previous one.
+    path: Vec<&'v str>,
+    count: usize,
+}
+
 #[derive(Debug)]
 pub enum CascadeError {
     PropertyNotSupported,
@@ -167,34 +178,43 @@ impl<'c> Cascade<'c> {
         }
     }
 
+    /// Returns false if values can't be computed, because a variable is not defined, depends on
+    /// itself or uses too many other variables.
     fn compute_shorthand<'v>(
         &'v self,
         definition: &'v [Definition],
-        variables: &mut Vec<&'v str>,
+        variables: &mut UsedVariables<'v>,
         shorthand: &mut Vec<ComputedValue>,
     ) -> bool {
         for value in definition {
             match value {
                 Definition::Var(name) => {
-                    if variables.contains(&name.as_str()) {
+                    if variables.path.contains(&name.as_str()) {
                         error!("unable to compute variable {name}, it depends on itself");
-                        shorthand.push(ComputedValue::Error);
-                        continue;
+                        return false;
+                    }
+                    if variables.count == MAX_USED_VARIABLES {
+                        error!("unable to compute variable {name}, too many variables used");
+                        return false;
                     }
                     let definition = match self.get_variable(name) {
                         Some(shorthand) => shorthand,
                         None => {
                             error!("unable to compute variable {name}, not found");
-                            shorthand.push(ComputedValue::Error);
-                            continue;
+                            return false;
                         }
                     };
-                    variables.push(name);
-                    self.compute_shorthand(definition, variables, shorthand);
-                    variables.pop();
+                    variables.count += 1;
+                    variables.path.push(name);
+                    if !self.compute_shorthand(definition, variables, shorthand) {
+                        return false;
+                    }
+                    variables.path.pop();
                 }
                 Definition::Function(function) => {
-                    self.compute_function(function, variables, shorthand)
+                    if !self.compute_function(function, variables, shorthand) {
+                        return false;
+                    }
                 }
                 Definition::Explicit(value) => shorthand.push(value.clone()),
             }
-- 
2.43.0


From 322e872c49eca037b487debd6858f480874f9a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:31 +0000
Subject: [PATCH 50/53] fix: variables with comma-separated values lost all but
 the first one

---
 src/css/model.rs                       |  3 +-
 src/css/reader.rs                      |  2 +-
 src/styles/compute_animation_tracks.rs |  5 +--
 src/styles/compute_function.rs         |  9 ++---
 src/styles/compute_style.rs            | 51 +++++++++++++++++---------
 src/styles/mod.rs                      | 39 ++++++++++++--------
 6 files changed, 66 insertions(+), 43 deletions(-)

diff --git a/src/css/model.rs b/src/css/model.rs
index 012f9ff..d4c4dc3 100644
--- a/src/css/model.rs
+++ b/src/css/model.rs
@@ -92,7 +92,8 @@ pub enum Declaration {
 #[derive(Debug, Clone, PartialEq)]
 pub struct Variable {
     pub key: String,
-    pub shorthand: Shorthand,
+    /// List of comma-separated values.
+    pub values: Vec<Shorthand>,
 }
 
 /// A CSS property is a characteristic (like color) whose associated value
diff --git a/src/css/reader.rs b/src/css/reader.rs
index 59a7981..b8278bf 100644
--- a/src/css/reader.rs
+++ b/src/css/reader.rs
@@ -169,7 +169,7 @@ fn read_declarations(pair: Pair<Rule>) -> Vec<Declaration> {
                 .collect();
             Declaration::Variable(Variable {
                 key: key.to_string(),
-                shorthand: values[0].clone(),
+                values,
             })
         } else {
             let key = match PropertyKey::parse(key) {
diff --git a/src/styles/compute_animation_tracks.rs b/src/styles/compute_animation_tracks.rs
index 29c1039..22618b5 100644
--- a/src/styles/compute_animation_tracks.rs
+++ b/src/styles/compute_animation_tracks.rs
@@ -38,10 +38,7 @@ impl<'c> Cascade<'c> {
                         )
                     }
                     Declaration::Property(property) => {
-                        for index in 0..property.values.len() {
-                            let value = &property.values[index];
-                            self.compute_style(property.key, index, value, &mut keyframe_style);
-                        }
+                        self.compute_style(property.key, &property.values, &mut keyframe_style);
                     }
                 }
             }
diff --git a/src/styles/compute_function.rs b/src/styles/compute_function.rs
index c59a1cf..0ce36eb 100644
--- a/src/styles/compute_function.rs
+++ b/src/styles/compute_function.rs
@@ -8,13 +8,13 @@ impl<'c> Cascade<'c> {
         &'v self,
         function: &'v Function,
         variables: &mut UsedVariables<'v>,
-        shorthand: &mut Vec<ComputedValue>,
-    ) -> bool {
+    ) -> Option<ComputedValue> {
         let name = function.name.as_str();
         let mut arguments = vec![];
         if !self.compute_shorthand(&function.arguments, variables, &mut arguments) {
-            return false;
+            return None;
         }
+        let arguments = arguments.concat();
         let computed_value = match (name, arguments.as_slice()) {
             (_, arguments) if arguments.contains(&ComputedValue::Error) => ComputedValue::Error,
             ("rgb", [r, g, b]) => {
@@ -30,8 +30,7 @@ impl<'c> Cascade<'c> {
                 ComputedValue::Error
             }
         };
-        shorthand.push(computed_value);
-        true
+        Some(computed_value)
     }
 }
 
diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index 90d5647..f54b71b 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -1,5 +1,5 @@
 use crate::css::ComputedValue::{Keyword, Time};
-use crate::css::{ComputedStyle, ComputedValue, Definition, PropertyDescriptor, PropertyKey};
+use crate::css::{ComputedStyle, ComputedValue, PropertyDescriptor, PropertyKey, Shorthand};
 use crate::styles::{Cascade, UsedVariables};
 use log::error;
 
@@ -7,24 +7,41 @@ impl<'c> Cascade<'c> {
     pub(crate) fn compute_style(
         &self,
         key: PropertyKey,
-        index: usize,
-        definition: &[Definition],
+        values: &[Shorthand],
         style: &mut ComputedStyle,
     ) {
-        let mut shorthand = vec![];
-        if !self.compute_shorthand(definition, &mut UsedVariables::default(), &mut shorthand) {
-            // no part of the declaration can be used
-            let count = match key {
-                PropertyKey::Transition | PropertyKey::Animation => 4,
-                PropertyKey::Border
-                | PropertyKey::BorderTop
-                | PropertyKey::BorderRight
-                | PropertyKey::BorderBottom
-                | PropertyKey::BorderLeft => 3,
-                _ => 1,
-            };
-            shorthand = vec![ComputedValue::Error; count];
+        let mut list = vec![];
+        for definition in values {
+            let mut computed = vec![];
+            if self.compute_shorthand(definition, &mut UsedVariables::default(), &mut computed) {
+                list.extend(computed);
+            } else {
+                // nothing of the declaration can be used
+                let count = match key {
+                    PropertyKey::Transition | PropertyKey::Animation => 4,
+                    PropertyKey::Border
+                    | PropertyKey::BorderTop
+                    | PropertyKey::BorderRight
+                    | PropertyKey::BorderBottom
+                    | PropertyKey::BorderLeft => 3,
+                    _ => 1,
+                };
+                list = vec![vec![ComputedValue::Error; count]];
+                break;
+            }
+        }
+        for (index, shorthand) in list.iter().enumerate() {
+            self.compute_longhands(key, index, shorthand, style);
         }
+    }
+
+    fn compute_longhands(
+        &self,
+        key: PropertyKey,
+        index: usize,
+        shorthand: &[ComputedValue],
+        style: &mut ComputedStyle,
+    ) {
         let mut overwrite = |key: PropertyKey, value: &ComputedValue| {
             style.insert(PropertyDescriptor::new(key, index), value.clone());
             // a list of values replaces the complete previous one
@@ -33,7 +50,7 @@ impl<'c> Cascade<'c> {
                 rest += 1;
             }
         };
-        match (key, shorthand.as_slice()) {
+        match (key, shorthand) {
             //
             // Element
             //
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 4eb1575..55c051a 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -33,7 +33,7 @@ pub struct Cascade<'c> {
     pub stats: CascadeStats,
 }
 
-pub type Variables = HashMap<String, Shorthand>;
+pub type Variables = HashMap<String, Vec<Shorthand>>;
 
 /// Limits values of variables which use other variables several times.
 const MAX_USED_VARIABLES: usize = 1000;
@@ -153,7 +153,7 @@ impl<'c> Cascade<'c> {
         }
     }
 
-    pub fn take_variables(self) -> HashMap<String, Shorthand> {
+    pub fn take_variables(self) -> Variables {
         self.variables
     }
 
@@ -170,22 +170,25 @@ impl<'c> Cascade<'c> {
             match declaration {
                 Declaration::Variable(_) => {}
                 Declaration::Property(property) => {
-                    for index in 0..property.values.len() {
-                        self.compute_style(property.key, index, &property.values[index], style);
-                    }
+                    self.compute_style(property.key, &property.values, style);
                 }
             }
         }
     }
 
+    /// Adds values to the last one of the list, variables with a list of values extend it.
+    ///
     /// Returns false if values can't be computed, because a variable is not defined, depends on
     /// itself or uses too many other variables.
     fn compute_shorthand<'v>(
         &'v self,
         definition: &'v [Definition],
         variables: &mut UsedVariables<'v>,
-        shorthand: &mut Vec<ComputedValue>,
+        list: &mut Vec<Vec<ComputedValue>>,
     ) -> bool {
+        if list.is_empty() {
+            list.push(vec![]);
+        }
         for value in definition {
             match value {
                 Definition::Var(name) => {
@@ -197,8 +200,8 @@ impl<'c> Cascade<'c> {
                         error!("unable to compute variable {name}, too many variables used");
                         return false;
                     }
-                    let definition = match self.get_variable(name) {
-                        Some(shorthand) => shorthand,
+                    let values = match self.get_variable(name) {
+                        Some(values) => values,
                         None => {
                             error!("unable to compute variable {name}, not found");
                             return false;
@@ -206,17 +209,23 @@ impl<'c> Cascade<'c> {
                     };
                     variables.count += 1;
                     variables.path.push(name);
-                    if !self.compute_shorthand(definition, variables, shorthand) {
-                        return false;
+                    for (index, definition) in values.iter().enumerate() {
+                        if index > 0 {
+                            list.push(vec![]);
+                        }
+                        if !self.compute_shorthand(definition, variables, list) {
+                            return false;
+                        }
                     }
                     variables.path.pop();
                 }
                 Definition::Function(function) => {
-                    if !self.compute_function(function, variables, shorthand) {
-                        return false;
+                    match self.compute_function(function, variables) {
+                        Some(value) => list.last_mut().unwrap().push(value),
+                        None => return false,
                     }
                 }
-                Definition::Explicit(value) => shorthand.push(value.clone()),
+                Definition::Explicit(value) => list.last_mut().unwrap().push(value.clone()),
             }
         }
         true
@@ -224,10 +233,10 @@ impl<'c> Cascade<'c> {
 
     fn set_variable(&mut self, variable: &Variable) {
         self.variables
-            .insert(variable.key.clone(), variable.shorthand.clone());
+            .insert(variable.key.clone(), variable.values.clone());
     }
 
-    fn get_variable(&self, name: &str) -> Option<&Shorthand> {
+    fn get_variable(&self, name: &str) -> Option<&Vec<Shorthand>> {
         self.variables.get(name)
     }
 }
-- 
2.43.0


From 07ed6ede9b298866b1dcc6ca122715c7bca2777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:51 +0000
Subject: [PATCH 51/53] fix: keyframes of a step given twice lost the
 declarations of the first one

---
 src/styles/compute_animation_tracks.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/styles/compute_animation_tracks.rs b/src/styles/compute_animation_tracks.rs
index 22618b5..d02d29b 100644
--- a/src/styles/compute_animation_tracks.rs
+++ b/src/styles/compute_animation_tracks.rs
@@ -26,9 +26,10 @@ impl<'c> Cascade<'c> {
         style: &ComputedStyle,
     ) -> Vec<AnimationTrack> {
         let mut animated_properties: HashSet<PropertyDescriptor> = HashSet::new();
-        let mut computed_keyframe_styles = BTreeMap::new();
+        let mut computed_keyframe_styles: BTreeMap<u32, ComputedStyle> = BTreeMap::new();
         for keyframe in &animation.keyframes {
-            let mut keyframe_style = HashMap::new();
+            // a step can be given several times
+            let keyframe_style = computed_keyframe_styles.entry(keyframe.step).or_default();
             for declaration in &keyframe.declaration {
                 match declaration {
                     Declaration::Variable(variable) => {
@@ -38,12 +39,11 @@ impl<'c> Cascade<'c> {
                         )
                     }
                     Declaration::Property(property) => {
-                        self.compute_style(property.key, &property.values, &mut keyframe_style);
+                        self.compute_style(property.key, &property.values, keyframe_style);
                     }
                 }
             }
             animated_properties.extend(keyframe_style.keys());
-            computed_keyframe_styles.insert(keyframe.step, keyframe_style);
         }
         let from = computed_keyframe_styles.entry(0).or_default();
         for property in &animated_properties {
-- 
2.43.0


From 00246a40494b70b4e7a678621e0de4352762c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:26 +0000
Subject: [PATCH 52/53] fix: fixed attribute values with a backslash were
 rejected

---
 src/html/html.pest | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/html/html.pest b/src/html/html.pest
index 8bb7627..a67b557 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -131,4 +131,5 @@ VChar = {
     !("\"" | "\\") ~ ANY
     | "\\" ~ ("\"" | "\\" | "/" | "b" | "f" | "n" | "r" | "t")
     | "\\" ~ ("u" ~ ASCII_HEX_DIGIT{4})
+    | "\\"
 }
-- 
2.43.0


From ecbf4e46fb7459f10a58a12e163b46a9cdefa628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:41 +0000
Subject: [PATCH 53/53] fix: texts before an element were taken for its
 previous sibling

---
 src/css/matching.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 78c0745..cfbb0bc 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -51,11 +51,17 @@ fn find_next_target(combinator: char, target: &mut NodeId, tree: &TaffyTree<Elem
             .parent(*target)
             .and_then(|parent| tree.children(parent).ok())
             .and_then(|children| {
+                // texts between elements are ignored
+                let is_element = |child: &NodeId| {
+                    tree.get_node_context(*child)
+                        .map(|element| element.text.is_none())
+                        .unwrap_or(true)
+                };
                 children
-                    .iter()
-                    .skip(1)
-                    .position(|child| *child == *target)
-                    .and_then(|child| children.get(child).cloned())
+                    .into_iter()
+                    .take_while(|child| *child != *target)
+                    .filter(is_element)
+                    .last()
             }),
         _ => {
             // TODO: multi-target selector match
-- 
2.43.0

