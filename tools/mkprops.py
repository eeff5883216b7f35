#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the statements are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "observe_at": observe, "hook_needed": hook,
        },
    })

VM, V, R = "src/view_model.rs", "src/view.rs", "src/rendering.rs"
TREE = "shown tree of elements returned by the view after each update"
MSG = "messages, capture flag and cursor returned by each update"

prop("C01", "Text and attributes always show the latest bound values",
 "After every update, each shown text and each bound attribute reads exactly as the template's fixed parts joined with the current values of its bindings, each passed through its pipes from left to right: null or missing gives nothing, a boolean, number or string gives its usual text, an array gives `[array]` and an object `{object}`; the built-in pipe `duration` makes a number of seconds a text with unit (`1.5s`, `250ms`). A flag attribute is present, with its own name as value, exactly while its value is truthy. This holds from the first update on and whatever values were shown before.",
 ["histories", "inputs"], "every history of bound values up to the depth bound, over scalars, null, missing fields, arrays and objects, for texts, attributes and flags with zero to three bindings and pipes, at top level, in objects and in repeated items",
 "The tests bind each kind of binding once or twice with one value; staleness, first-update and type-change behaviour depend on the sequence of values.",
 [VM, V, R, "src/value.rs", "src/element.rs"],
 [("difference of the new value against the previous one", VM + " ViewModel::bind/bind_value"), ("reaction of a binding to a value", VM + " Binding::react_value_change"), ("applying a reaction to the tree", V + " View::update_tree"), ("text of a JSON value", "src/value.rs eval_string")],
 [TREE + ": texts and attributes"], [("last value", "value the tree currently shows", VM + " ViewModel"), ("text spans", "fixed and bound parts", "src/element.rs TextContent")])

prop("C02", "Conditional elements are shown exactly while their condition holds, in order",
 "After every update, an element with a `?` condition is among the shown children of its parent exactly when the condition's current value (after its pipes) is truthy, and one with a `!` condition exactly when it is falsy; null or missing, false, 0, the empty string and the empty array are falsy, everything else is truthy. Shown siblings always stand in template order, whatever the order in which they were shown and hidden before. This includes conditions on objects and lists, conditions inside repeated items, and the very first update.",
 ["histories", "inputs"], "every history of condition values up to the depth bound for several conditional siblings (mixed with plain and repeated siblings) and for every JSON kind as condition value",
 "One test flips one sibling once; insertion position depends on which siblings are shown at that moment, and truthiness tracking on the previous value.",
 [VM, V, R, "src/value.rs"],
 [("visibility reaction", VM + " react_value_change"), ("reattachment at the template position", V + " update_tree Reattach"), ("initial hiding of conditional elements", V + " apply_default_bindings_state"), ("truthiness", "src/value.rs eval_boolean")],
 [TREE + ": children lists"], [("full list of children", "template order of all children", "src/element.rs Element.children")])

prop("C03", "Repeated elements mirror the array: first N items, in order, in place",
 "After every update, a repeat with capacity N shows exactly min(N, length) copies of its element, the k-th one rendered from the k-th item of the current array in all its texts, attributes, conditions, nested repeats and event handlers; a value that is not an array shows no copy. The copies stand in item order at the place of the repeat, after the shown siblings written before it and before those written after it. This holds whatever arrays, longer or shorter, were shown before.",
 ["histories", "inputs"], "every history of arrays of length 0..N+2 (and non-arrays) over scalar and object items, with siblings before and after, several repeats under one parent, and nested repeats",
 "The tests show at most one growth or shrink step per repeat and never one followed by siblings.",
 [VM, V, R],
 [("array difference", VM + " bind_value"), ("repeat reaction", VM + " react_value_change Repeat"), ("showing and hiding copies", V + " update_tree Repeat"), ("one copy per index with its own paths", R + " render_element")],
 [TREE + ": children lists, texts, attributes", MSG])

prop("C04", "No sequence of JSON values breaks an update or leaves traces behind",
 "Whatever sequence of JSON values a view is given (types changing at any path, missing and extra fields, arrays or objects where scalars stood, numbers of any size and sign, also through the built-in pipes), every update returns successfully without panic or hang. Whatever came before, the shown tree after an update equals that of a new view given only the latest value.",
 ["histories", "inputs"], "all histories up to the depth bound of values that put every JSON kind at every bound path of templates that bind the same paths in several roles",
 "Tests use well-typed values; failures need a particular change of type or length between two updates.",
 [VM, V, "src/value.rs"],
 [("difference of values", VM + " bind_value"), ("built-in pipe for durations", VM + " default_transformers"), ("applying reactions", V + " update_tree")],
 ["result of update", TREE])

prop("C05", "Names in templates resolve to the innermost enclosing definition",
 "The first name of a binding path refers to the nearest enclosing repeat variable or alias of that name, and to a field of the given value if there is none; the remaining names select fields of it. A definition is visible to the bindings of its element and of everything inside it, and ends there: afterwards an outer definition of the same name, or the field of the value, is meant again. A template used through a link shows exactly what its content would show if written in the place of the link together with the link's aliases, conditions, repeats and attributes.",
 ["programs", "inputs"], "all templates up to the size bound built from nested repeats, aliases and template links over colliding names, rendered against values that make every scope distinguishable",
 "Tests cover two fixed combinations; scoping errors need colliding names in a particular nesting.",
 [R, VM, "src/html/reader.rs", V],
 [("map of local names", R + " Renderer.locals in render_element"), ("path of a binding", VM + " Binder::to_json_pointer"), ("template links", "src/html/reader.rs as_template_link; src/view.rs from_html")],
 [TREE, MSG])

prop("C06", "Messages carry the current and complete values of their arguments",
 "A handler's message has its first argument as key and the others as payload in written order: no other argument gives the key alone as a string, one gives an object from key to value, several an object from key to the list of values. Every bound argument is the complete JSON value found at its path in the value given to the same update (null if there is none), passed through its pipes from left to right. The event argument holds the pointer position, key or character and the box and state of the element that handles it.",
 ["histories", "inputs", "programs"], "every handler shape of up to four arguments over keywords, event, paths to every JSON kind and pipes, with every short history of values between events",
 "Tests use one keyword and one string argument.",
 [VM, R, "src/html/reader.rs"],
 [("building a message", VM + " ViewModel::emit"), ("handler arguments", R + " render_element Callback"), ("event payloads", VM + " MouseEvent, KeyboardEvent, TextEvent, EventTarget")],
 [MSG])

prop("C07", "Enter, leave and move messages follow the pointer exactly",
 "An element is hovered exactly when the last pointer position lies inside its box (left and top edge included, right and bottom excluded) while it is shown, not hidden by visibility and accepts pointer events. Every change of this, whether through a pointer move or because elements moved, appeared or vanished between two updates, produces exactly one leave or enter message for the element, leaves before enters and inner or later elements first, and each pointer move produces one move message for every hovered element. Enter and leave messages of one element therefore strictly alternate, starting with enter.",
 ["histories", "inputs"], "every sequence up to the depth bound of pointer moves over all cells and edges of nested and overlapping layouts, interleaved with value changes that move, add, hide and remove elements",
 "Tests follow three fixed moves over two stacked boxes.",
 [VM],
 [("hit test", VM + " calculate_mouse_hovers, hovers"), ("hover difference", VM + " handle_elements_input MouseMove"), ("re-evaluation without a move", VM + " handle_output")],
 [MSG, "event payload state"], [("hovered elements", "elements under the pointer", VM + " elements_under_mouse")])

prop("C08", "Press, release and click reach exactly the elements under the pointer",
 "A button press is delivered once to every hovered element, inner or later ones first, and makes them active until the next release. A release is delivered once to every hovered element; unless a drag is in progress, a left release is also a click on each hovered element that was under the pointer at a press since the last release, and a right release a context-menu event on each hovered element. After a release no element is active, and no other event sequence produces a click.",
 ["histories"], "every sequence up to the depth bound of moves, presses and releases of both buttons over nested and overlapping boxes, with elements hidden and shown in between",
 "One test performs one click on one element.",
 [VM], [("press", VM + " handle_elements_input MouseButtonDown"), ("release", VM + " handle_elements_input MouseButtonUp")],
 [MSG, "styles of :active elements"], [("active elements", "elements pressed since the last release", VM + " elements_in_action")])

prop("C09", "At most one element has focus and only it receives keyboard input",
 "Pressing a button over an input-accepting element gives it the focus, pressing while the focused element is not under the pointer takes the focus away; a change of focus emits blur for the old element before focus for the new one, each exactly once, and repeated presses on the focused element emit neither. Key and character events are delivered once to the focused element's handlers and to no other element, and nowhere when nothing has focus. (Input-accepting elements are not nested in each other.)",
 ["histories"], "every sequence up to the depth bound of moves, presses, releases, key and character events over two input elements and other elements",
 "No test covers focus or keyboard input.",
 [VM], [("focus changes", VM + " handle_elements_input MouseButtonDown"), ("keyboard delivery", VM + " handle_elements_input KeyDown/KeyUp/Char")],
 [MSG, "styles of :focus elements"], [("focus", "focused element", VM + " ViewModel.focus")])

prop("C10", "Every drag starts on a draggable element and ends at the next release",
 "A left press over a draggable element starts a drag with one drag-start message on it; while it lasts, hovered elements get drag-enter, drag-leave and drag-over messages together with their enter, leave and move changes. The next release ends it: the innermost hovered drop target, if any, gets one drop message, the dragged element gets one drag-end message in any case, and no element gets a click. No drag-related message appears outside a drag, and after the release no drag is in progress. (Draggable elements are not nested in each other.)",
 ["histories"], "every sequence up to the depth bound of moves, presses and releases over a draggable element, nested drop targets, other elements and empty space",
 "No test covers dragging.",
 [VM], [("start", VM + " handle_elements_input MouseButtonDown"), ("drop and end", VM + " handle_elements_input MouseButtonUp"), ("enter, leave, over", VM + " handle_elements_input MouseMove")],
 [MSG], [("drag", "source of the drag in progress", VM + " ViewModel.drag")])

prop("C11", "Splitting input events over several updates does not change their effect",
 "Giving a list of events in one update, or the same events in the same order spread over several consecutive updates with the same value and no elapsed time, produces the same messages in the same order, with the same pointer positions, keys, boxes and states, and leaves the same elements hovered, active, focused and dragged. The only difference allowed is repetition of move and drag-over messages, which every update may give for a resting pointer. (Styles that react to hover, active or focus do not move elements here.)",
 ["histories", "schedules"], "every event sequence up to the length bound and every way of cutting it into consecutive updates",
 "Only one test passes more than one event to one update.",
 [VM, "src/input.rs"], [("event batch handling", VM + " handle_output")], [MSG])

prop("C12", "Input capture and cursor reflect exactly the current interaction state",
 "After every update input is reported as captured exactly when some element is hovered, active, focused or being dragged. The reported cursor is that of the innermost (last in document order) hovered element whose style sets a cursor other than auto, and auto if there is none; it is computed from the styles that apply now, not from earlier ones.",
 ["histories"], "every sequence up to the depth bound of moves, presses, releases and value changes over nested boxes with and without cursors and pointer-events",
 "Three tests look at the flag, none at the cursor.",
 [VM, "src/styles/apply.rs", "src/styles/inherit.rs"], [("capture flag and cursor", VM + " handle_output"), ("cursor and pointer-events styles", "src/styles/apply.rs")], [MSG])

prop("C13", "A style rule applies exactly to the elements its selectors match",
 "A rule applies to a shown element exactly when one of its comma-separated selectors matches it with the CSS meaning, on the tree shown now and with the attribute values of now: `*`, type, `#id`, `.class`, attribute tests (presence, `=`, `~=`, `|=`, `^=`, `$=`, `*=`), `:hover`, `:active`, `:focus`, compounds of these, and chains of child `>` and next-sibling `+` combinators. It makes no difference whether ids, classes and attributes are fixed, bound or set by a flag, or whether elements are conditional or repeated.",
 ["inputs", "programs", "histories"], "all selectors up to the size bound over a small alphabet of names against all small trees with fixed and bound attributes, and short histories of the bound values",
 "Tests match single compounds on one element; no test uses a combinator.",
 ["src/css/matching.rs", V, "src/css/reader.rs", "src/css/css.pest"],
 [("matching", "src/css/matching.rs match_style"), ("splitting rules into fixed and re-evaluated ones", V + " calculate_elements_stylesheet"), ("pseudo-classes", V + " has_pseudo_class")],
 ["computed styles of shown elements"], [("candidate rules of an element", "rules that may apply", "src/element.rs Element.styles")])

prop("C14", "Computed styles and layout depend only on the present state",
 "After any history of values and pointer events, the computed style, text measure, box and position of every shown element equal those in a new view brought to the same values, the same shown tree and the same hovered, active and focused elements. In particular nothing remains of a rule, class, inline style, flag or pseudo-class that no longer applies: the properties it set return to what the remaining rules, inheritance or the initial values give. (Running transitions and animations are excluded.)",
 ["histories"], "every history up to the depth bound of class, inline style, flag, visibility and pseudo-class changes for every supported property",
 "Tests never remove a style again except through a transition.",
 [V, "src/styles/mod.rs", "src/styles/default.rs", "src/styles/inherit.rs", "src/styles/apply.rs"],
 [("per-update cascade", "src/styles/mod.rs Cascade::apply_styles"), ("initial values", "src/styles/default.rs reset_element_style"), ("layout style handed to the layout engine", V + " View::apply_styles"), ("text measuring", V + " measure_text")],
 ["computed style, size and position of shown elements"])

prop("C15", "Later declarations win, inline styles win over rules, shorthands expand",
 "For each property, an element uses the last applying declaration: rules rank by their order in the stylesheet, declarations inside a block by their order, and inline style above all rules. A shorthand counts as a declaration of each of its longhands at its place, with the CSS assignment of one to four values to sides and corners and of one or two values to axes. Each supported property sets exactly its own aspect of the element, with the declared value, and no other.",
 ["inputs", "programs"], "for every supported property and value form: all arrangements of up to three competing declarations (longhand, shorthands of each arity, variable) over rules and inline style",
 "Tests check a few single declarations on parsing level and one three-rule cascade.",
 ["src/styles/mod.rs", "src/styles/compute_style.rs", "src/styles/apply.rs", "src/css/model.rs", "src/css/reader.rs"],
 [("cascade", "src/styles/mod.rs apply_styles"), ("shorthand expansion", "src/styles/compute_style.rs"), ("property application", "src/styles/apply.rs")],
 ["computed style of shown elements"])

prop("C16", "CSS variables take the nearest definition and never loop",
 "`var(--x)` stands for the value given to `--x` by the last applying declaration on the element itself, wherever that stands in the stylesheet, or else on the nearest ancestor that sets it; siblings and their descendants never see it. This holds wherever values occur: alone, as part of a shorthand, inside functions, in keyframes and in inline styles, directly or through other variables. An undefined variable or a cycle of definitions makes just that property take effect as if unset, and never crashes or hangs.",
 ["programs", "histories"], "all assignments of up to two variables (fixed, referring to each other, cyclic) to the elements of a small tree, in both orders relative to their uses, with classes toggling the definitions",
 "No test evaluates a variable.",
 ["src/styles/mod.rs", "src/styles/compute_function.rs", "src/styles/compute_style.rs", V],
 [("variable scope", "src/styles/mod.rs Cascade.variables; src/view.rs apply_styles"), ("substitution", "src/styles/mod.rs compute_shorthand")],
 ["computed style of shown elements"])

prop("C17", "Inherited properties, opacity and units resolve along the current tree",
 "An element and its texts take color, font family, size, style, weight and pointer-events from the parent unless a rule sets them, and every other property starts from its initial value; texts and the picture of an image are visible exactly when their element is. The effective opacity of an element is the product of its own and its ancestors' opacities. Lengths resolve for every update with the viewport and fonts of that update: px, em (parent's font size), rem (16 px), vw, vh, vmin, vmax, and percentages of the font size for font-size.",
 ["inputs", "histories", "configurations"], "all assignments of inherited properties, opacities and units to a chain of elements, with histories of viewport and class changes",
 "No test covers inheritance, opacity or viewport units.",
 ["src/styles/inherit.rs", "src/styles/apply.rs", V],
 [("inheritance", "src/styles/inherit.rs"), ("opacity product", V + " compute_final_positions_and_clipping"), ("unit resolution", "src/styles/apply.rs parse_dimension_length")],
 ["computed style, opacity and size of shown elements"])

prop("C18", "Positions, sizes and clipping agree with the computed layout",
 "After every update, the position of each shown element is its parent's position plus its offset in the layout, minus the parent's scroll offset, which stays between zero and the overflow of the content; since nothing scrolls yet, children are never displaced. Each element's size and content size are those of the layout for the current styles and texts. Its clipping area is the box of the nearest ancestor whose content overflows its box in either direction, and there is none without such an ancestor.",
 ["inputs", "histories"], "all combinations of box and content sizes over nested boxes, overflow in none, either or both directions, and histories switching between them",
 "Tests check positions in three layouts, none with overflow.",
 [V, "src/styles/scrolling.rs"],
 [("final positions and clipping", V + " compute_final_positions_and_clipping"), ("scroll range", "src/styles/scrolling.rs Scrolling::ensure")],
 ["position, size, content size, clipping and scrolling of shown elements"])

prop("C19", "Animations interpolate their keyframes over the elapsed time",
 "While an animation runs, an animated property has, at progress p percent of the current iteration (whole percents, after the delay), the value linearly interpolated between the surrounding keyframes that set it (values of different kinds or units switch half way, 0 goes with every kind); a missing first or last keyframe takes the value the element has without the animation. The first update that declares an animation shows the values without it and time counts from there. Delay, duration, iteration count (also infinite) and play state (the time up to an update counts with the state before it) are respected for any split of the elapsed time over updates, the last keyframe value is kept after the final iteration, of several animations of one property the last one in the list that has begun determines it, and a property stops being animated once no rule declares the animation any more. No combination of durations, delays, counts and time steps hangs, panics or yields a value that is not a number.",
 ["histories", "inputs"], "every sequence of time steps up to the depth bound over animations with all keyframe layouts, delays, iteration counts and play states, and histories that start, change and stop them",
 "Two tests sample one animation at three times.",
 ["src/animation.rs", "src/styles/compute_animation_tracks.rs", "src/styles/mod.rs", "src/styles/apply.rs"],
 [("clock", "src/animation.rs Animator::update"), ("interpolation", "src/animation.rs play_track, animate"), ("keyframe tracks", "src/styles/compute_animation_tracks.rs")],
 ["computed style of shown elements after each update"], [("animation time", "time since start", "src/animation.rs Animator.time")])

prop("C20", "Transitions move from the shown value to the new one in the set time",
 "When the declared value of a (longhand) property under transition changes, the element keeps showing the old value for that update and the delay, and then moves linearly from it to the new value within the duration (values of different kinds or units switch half way), counted over any split of the elapsed time; a change on the way starts over from the value shown at that moment, and the values of a list move together. Without a change, on first appearance of the element, the value or the transition, without a declared transition and with zero duration the value is shown as declared at once. No combination of durations, delays, appearing and disappearing declarations and time steps hangs, panics or yields a value that is not a number.",
 ["histories", "inputs"], "every sequence up to the depth bound of value or class changes combined with time steps, for transitions with and without delay and for number, length, percentage and color properties",
 "Three tests follow one width transition along fixed timelines.",
 ["src/animation.rs", "src/styles/mod.rs"],
 [("transition state", "src/animation.rs Transition::play, init_after_style_applied"), ("clock", "src/animation.rs Animator::update")],
 ["computed style of shown elements after each update"], [("range", "value moved from and to", "src/animation.rs Transition.range")])

prop("C21", "Well-formed HTML is read as written and malformed HTML is only rejected",
 "For every well-formed template the view has exactly the written tree: the same tags in the same nesting and order, void elements without children, the same attributes with the same values, texts with their inner spaces (a line break inside counts as one space), comments without effect and scripts as elements without content, independent of optional white space and line breaks between tags and attributes. For every other input creating a view either succeeds or returns an error; it never panics or hangs.",
 ["inputs"], "all trees up to the size bound over a tag and attribute alphabet (void, void-prefixed and ordinary names) in several layouts of white space, and all token strings up to the length bound over the markup alphabet",
 "Tests read about thirty fixed snippets.",
 ["src/html/reader.rs", "src/html/html.pest", V, R],
 [("grammar", "src/html/html.pest"), ("reader", "src/html/reader.rs"), ("building the tree", R + " render_element")],
 ["result of creating a view and its tree"])

prop("C22", "Well-formed CSS is read as written and malformed CSS is only rejected",
 "Every well-formed stylesheet or inline style (declarations each ending in a semicolon; rules with `>`, `+`, comma, type, id, class, attribute and pseudo-class selectors; keyframes) is read completely: all rules, selectors, declarations and keyframes in order and with their values - numbers with minus sign and fraction, units, percentages, times, colors of 3, 4, 6 or 8 hex digits, functions of comma separated values (color channels as numbers, fractions or percentages, limited to their range), variables, strings in double quotes with any content, and lists - independent of white space, line breaks and comments between tokens. A declaration with an unknown property, or with an unknown value for a property, is skipped without affecting the other properties. For every other input creating a view or updating it either succeeds or returns an error; it never panics or hangs.",
 ["inputs"], "all token strings up to the length bound over the CSS alphabet for stylesheets and inline styles, and all value forms in all token layouts",
 "Tests read about thirty fixed snippets and never a malformed one.",
 ["src/css/reader.rs", "src/css/css.pest", "src/css/model.rs", "src/styles"],
 [("grammar", "src/css/css.pest"), ("reader", "src/css/reader.rs"), ("value application", "src/styles/apply.rs")],
 ["result of creating a view and of update, computed styles"])

prop("C23", "Equal histories give equal results and an idle update changes nothing",
 "Two views created from the same sources and given the same updates show the same trees, styles, layouts, messages, capture flags and cursors at every step. Repeating an update with the same value, no events and no elapsed time after things have settled changes nothing shown and emits no message other than move and drag-over messages for the resting pointer.",
 ["histories", "configurations"], "every history up to the depth bound over a template that uses every feature, each run in several independent views",
 "Hash ordering differs per view, so a single test run cannot see order dependence.",
 [V, VM, "src/styles/mod.rs"],
 [("update", V + " View::update"), ("hash maps of styles, variables, attributes and animations", "src/styles/mod.rs")],
 [TREE, MSG])

prop("C24", "Looking up an id finds the shown element that carries it now",
 "After every update, looking up an id that exactly one shown element carries returns this element, whether the id is fixed, bound, in a repeated or conditional element or came through a template, and whatever ids elements carried before. Looking up an id that no element carries any more, or never carried, returns nothing. (Bound ids contain one binding.)",
 ["histories"], "every history up to the depth bound of ids moving between bound, repeated and conditional elements and fixed ids",
 "No test looks an element up.",
 [V, R], [("id index", V + " View.identified, update_tree Bind, get_element_by_id"), ("fixed ids", R + " render_element")],
 ["result of the lookup"], [("id index", "id to element", V + " View.identified")])

prop("C25", "The translator is applied exactly once to every fixed text and nothing else",
 "When a view is created, every fixed part of every text in the body, also in repeated elements and in templates used, is passed to the given translator exactly once per copy the template holds (a repeat of capacity N holds N copies) and shown as the translator returned it. Bound values, attributes, inline styles, ids and handler arguments are never passed to it, and updates never call it again.",
 ["programs", "histories"], "all templates up to the size bound mixing fixed and bound parts of texts and attributes in elements, repeats, conditions and templates, with histories of updates",
 "Tests use a translator that changes nothing.",
 [R], [("translation", R + " render_text")], ["calls of the translator", TREE])

prop("C26", "An image always shows its current source",
 "After every update the picture of each shown image element is the current value of its source attribute, whether this is fixed, bound or partly bound, inside repeated or conditional elements, and whatever sources it had before. The picture covers exactly the image element's content box and other elements show no picture unless a style gives them one.",
 ["histories"], "every history up to the depth bound of source values for fixed, bound and repeated images",
 "No test covers images.",
 ["src/controls/img.rs", V, R], [("picture child", "src/controls/img.rs render_img, update_img_src"), ("attribute reaction", V + " update_tree Bind")],
 [TREE + ": background images"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
