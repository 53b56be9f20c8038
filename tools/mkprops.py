#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Parsing and rendering preserve the document",
  "Every document the parser accepts renders to markup that is accepted again, yields the same sequence of nodes, and renders to the identical text (rendering is a fixpoint). Text, comments, raw text of script/style/title/textarea, tag names, attribute names, attribute order and attribute values are kept character for character; only the layout inside a tag and of the doctype is normalised. Void, self-closed and open elements keep their form.",
  ["inputs"], "all accepted input texts (tag names starting with a letter), any mixture of constructs, any Unicode content, whitespace and letter case",
  "The tests parse a few dozen one-construct snippets; the guarantee is over every combination of tag layout, letter case, raw text, quotes and Unicode.",
  ["src/parse.rs", "src/input.rs", "src/event.rs", "src/text/encoded.rs"],
  [("tokenizer with raw-text mode", "src/parse.rs: parse_data_mode, parse_raw_data, mode_for_tag"), ("event rendering", "src/event.rs: Display for Event/Attributes")],
  [("mode", "ordinary or raw-text tokenizing", "src/parse.rs: Iter.mode"), ("rest", "unparsed input", "src/parse.rs: Iter.rest")],
  ["Template::from_str", "Display for Template", "IntoStream for Template"])
p("C02", "Exactly the properly nested documents are accepted",
  "A document consisting of well-formed constructs is accepted if and only if every closing tag closes the most recently opened element that is still open (names compared ASCII case-insensitively) and nothing is left open at the end. Void elements (whatever their letter case and with or without a slash) and self-closed tags never need closing and never take a closing tag. Tags inside comments, attribute values and raw text do not count. A document with a construct that is not well-formed is never accepted.",
  ["inputs"], "all sequences of opening, closing, void, self-closed, raw-text and comment constructs, of any length and depth, with any letter case",
  "The tests cover a handful of unbalanced inputs; acceptance is a property of every tag sequence and every depth.",
  ["src/parse.rs", "src/text/identifier.rs"],
  [("stack of open elements", "src/parse.rs: Iterator for Iter"), ("void tag list", "src/parse.rs: is_void_tag"), ("raw text mode", "src/parse.rs: mode_for_tag, parse_raw_data")],
  [("stack", "open elements with their locations", "src/parse.rs: Iter.stack")], ["Template::from_str"])
p("C03", "Depth and length limits are exact",
  "With a maximum depth of N, a document whose elements are nested N deep is accepted and any opening tag that would nest deeper is rejected with an error naming the limit, that tag and its location; void and self-closed elements do not count, and closing an element gives its depth back. With a maximum length of N bytes an input of N bytes is accepted and one of N+1 bytes is rejected with the length error before it is parsed. Without limits no document is rejected for its size, and limits never alter the result of documents within them.",
  ["inputs", "configurations"], "all documents and all limit values, for text input and files",
  "Tests use one limit value with one document each; off-by-one and accounting errors show at other depths, element kinds and multi-byte lengths.",
  ["src/parse.rs", "src/template.rs"],
  [("stack limit check", "src/parse.rs: Iterator for Iter"), ("length check", "src/template.rs: from_str, from_file"), ("options", "src/parse.rs: Options")],
  [("max_stack_depth, max_input_len", "configured limits", "src/parse.rs: Options")], ["Template::from_str", "Template::from_file"])
p("C04", "Parse errors name the first fault and its place",
  "A rejected document reports the first fault in document order: the error kind, tag and attribute names and identifier problem are those of the offending construct, and for missing closing tags the innermost open element plus all other open ones. The reported location (line and column counted in characters from 1, offset in bytes) is where that construct or, for identifiers and attribute values, that item begins; for mismatched tags both locations belong to their own tag. The error message and cause chain name the same tags, roles, identifier problem and locations.",
  ["inputs"], "all rejected inputs, including multi-line and multi-byte prefixes before the fault and several faults in one document",
  "Tests check single-line, ASCII, single-fault inputs; positions and attribution depend on everything that precedes the fault.",
  ["src/parse.rs", "src/location.rs", "src/input.rs", "src/template.rs"],
  [("location tracking", "src/location.rs: with_consumed; src/input.rs: advanced"), ("error construction", "src/parse.rs: try_parse_*, Iterator for Iter"), ("messages", "src/parse.rs: Display for Error")],
  [("location", "line, column, offset of the unparsed rest", "src/input.rs: Input.location")], ["Template::from_str error value", "error messages"])
p("C05", "One rule decides which names are valid identifiers",
  "A name is accepted as identifier exactly when it is non-empty ASCII without whitespace and without any of = \" / > < & , ; and otherwise the error states the first applicable reason in the order empty, non-ASCII, whitespace (first such character), forbidden (first such character). The same rule and reason apply wherever names enter: parsing identifiers, attribute, class and id operations, created elements, every selector kind, and tag and attribute names in documents. Accepted names are kept verbatim and compared ASCII case-insensitively.",
  ["inputs"], "all strings at all entry points that take names",
  "Tests try a few bad names at a few entry points; the rule is over all strings and all entry points.",
  ["src/text/identifier.rs", "src/select.rs", "src/template.rs", "src/transform.rs", "src/parse.rs"],
  [("validate", "src/text/identifier.rs: validate"), ("IntoIdentifier", "src/text/identifier.rs"), ("selector construction", "src/select.rs: into_selector, FromStr, from_str_iterator")],
  (), ["Identifier::from_str", "with_element", "attribute operations", "selectors"])
p("C06", "Selectors match exactly the elements they describe",
  "A tag, id, class, class-list or combined tag#id.class selector matches an element's start exactly if all its parts hold: equal tag name, some id attribute whose whole value equals the id, and for every listed class some class attribute containing it as a whitespace-separated word, all compared ASCII case-insensitively. Nothing but an opening, self-closed or void tag ever matches. A selector text is accepted exactly if it has the form tag#id.class.class with every part optional but at least one present and valid, and the error of a rejected one names the faulty part and class index.",
  ["inputs"], "all elements (any number and order of attributes, repeated, empty or valueless attributes, any whitespace and case) and all selectors of every kind",
  "Tests match fixed selectors against fixed elements; matching depends on arbitrary attribute lists, class lists and whitespace.",
  ["src/select.rs", "src/event.rs"],
  [("Static/Id/Tag/Class/Classes matching", "src/select.rs: impl Selector"), ("has_class, has_id", "src/event.rs: Attributes, Attribute"), ("selector grammar", "src/select.rs: IntoSelector for &'static str")],
  (), ["Api::select", "into_selector"])
p("C07", "Selection covers the right elements, once each, in order",
  "A selection hands to its transformation exactly the matching elements of the stream it is applied to, in document order and one at a time: at any depth for the plain form, only top-level elements for the direct form, only the first such element for the once forms, and only the element's descendants (children for direct) for the sub forms. Each is handed over complete from its start to its own end, even with equally named elements nested inside; elements inside an already selected one are not selected again, and the transformed output is not selected again either. Selection resumes right behind the selected element, and each transformation's output stands where the element stood.",
  ["inputs", "programs"], "all documents, selectors, selection forms and nested or chained selections",
  "Tests use small fixed trees; the guarantee quantifies over nesting of same-named and matching elements, siblings after matches, depths and combinations of forms.",
  ["src/modifier/select/mod.rs", "src/modifier/select/element.rs", "src/modifier/select/select_contents.rs", "src/modifier/mod.rs", "src/transform.rs"],
  [("scan with depth level", "src/modifier/select/mod.rs: Select, SelectOnce; src/modifier/mod.rs: Level"), ("element slicing", "src/modifier/select/element.rs: SingleElement"), ("content slicing", "src/modifier/select/select_contents.rs: SelectContent, CurrentContent")],
  [("level", "nesting depth while scanning", "src/modifier/mod.rs: Level"), ("state", "Scanning, Active or Passthrough", "src/modifier/select/mod.rs")],
  ["Api::select*", "Api::subselect*"])
p("C08", "A transformation leaves everything it does not target untouched",
  "Whatever is outside the selected elements is emitted unchanged: same nodes, same order, same text, and the same void, self-closed or open form. Contents operations (which include selecting among the contents) keep the element's own tags and attributes, and attribute operations keep its contents, its form and all other attributes with their order. A transformation that selects nothing, or whose selected elements are returned as they are, yields a document equal to the original.",
  ["inputs", "programs"], "all documents and all transformations",
  "Tests compare small complete outputs; that the rest is untouched must hold around every target position in every document.",
  ["src/modifier/select/mod.rs", "src/modifier/select/select_contents.rs", "src/modifier/attribute.rs", "src/event.rs", "src/template.rs"],
  [("event passthrough", "src/modifier/mod.rs: passthrough; src/modifier/select"), ("attribute editing", "src/event.rs: Attributes"), ("collection", "src/template.rs: from_stream")],
  (), ["Template::transform"])
p("C09", "Removing, prepending, appending and replacing put content where stated",
  "remove drops the whole selection; prepend and append put the complete new content immediately before or after it; replace puts the new content in its place. The contents forms do the same strictly between the element's opening tag and its own closing tag; a self-closed element becomes an opened and closed one, and a void element stays as it is and receives nothing. Operations apply in the order written, each on the result of the one before, and inserted content of any kind (text, numbers, values, templates, streams) appears completely, exactly once and in order.",
  ["inputs", "programs"], "all documents, targets, content kinds and operation sequences",
  "Tests show one operation on one small element each; positions must be right for every element form, nesting and chain of operations.",
  ["src/modifier/remove.rs", "src/modifier/prepend.rs", "src/modifier/append.rs", "src/modifier/replace.rs", "src/modifier/select/select_contents.rs", "src/modifier/mod.rs", "src/content.rs"],
  [("Combine", "src/modifier/mod.rs"), ("Expand and SelectContent", "src/modifier/mod.rs; src/modifier/select/select_contents.rs"), ("content conversion", "src/content.rs")],
  (), ["Api::remove*, prepend*, append*, replace*"])
p("C10", "Repetition yields one transformed copy per item, in order",
  "Repeating an element (or its contents) over items produces, in item order, exactly one copy of the original per item, each transformed independently with its own item, and nothing else; with no items nothing (or an element without contents) is left. The or-else forms repeat in the same way when there is at least one item and otherwise apply the alternative to the original exactly once. Every item is requested exactly once and none is skipped.",
  ["inputs", "programs"], "all documents, item lists (also empty and long), item-dependent transformations and nested repetitions",
  "Tests repeat two or three items on flat elements; counts, order, independence and the empty case must hold for all items, nestings and bodies.",
  ["src/modifier/repeat.rs", "src/transform.rs"],
  [("collect, next, emit", "src/modifier/repeat.rs: State"), ("peek and fallback", "src/modifier/repeat.rs: RepeatOrElseState")],
  [("template", "collected original", "src/modifier/repeat.rs: State"), ("iter", "remaining items", "src/modifier/repeat.rs: State")],
  ["Api::repeat*"])
p("C11", "Attribute operations produce exactly the stated attribute list",
  "set leaves exactly one attribute of the name, with the new value and at the end; replace-if-exists does so only if the name was present and otherwise changes nothing; remove deletes every attribute of the name; add appends one without touching existing ones; add-to extends the value of the first attribute of that name by separator and value, gives a valueless attribute the value alone, and appends a new attribute if there is none. Names are matched ASCII case-insensitively and written as given; all other attributes keep their order, spelling and values. Only the selected element's own start tag is affected, whatever its form.",
  ["inputs", "programs"], "all attribute lists (duplicates, valueless, empty, mixed case), names, values, separators and operation sequences",
  "Tests use one or two attributes; the effect is defined for every list including duplicates, case variants and chains of operations.",
  ["src/event.rs", "src/modifier/attribute.rs", "src/transform.rs"],
  [("attribute list editing", "src/event.rs: Attributes"), ("start tag rewriting", "src/modifier/attribute.rs: attribute_step")],
  [("items", "attribute list", "src/event.rs: Attributes")], ["Api::*_attribute*"])
p("C12", "Class and id operations keep the other classes and attributes",
  "After adding a class the element matches that class and every class it matched before; an existing class attribute is extended, otherwise a new one is appended. After removing a class the element no longer matches it (any letter case, every occurrence, every class attribute), matches all its other classes as before and in the same order, and a class attribute left without classes disappears; removing an absent class changes nothing. Setting an id leaves exactly one id attribute with that id, and removing it leaves none.",
  ["inputs", "programs"], "all attribute lists, class lists with arbitrary whitespace and duplicates, names in any case, and operation sequences",
  "Tests use a few class strings; the guarantee covers all class lists, whitespace, duplicates and repeated class attributes.",
  ["src/event.rs", "src/modifier/attribute.rs", "src/transform.rs"],
  [("class list editing", "src/event.rs: Attribute::remove_class, Attributes::remove_class, add_to_attribute"), ("set_id, remove_id", "src/transform.rs")],
  (), ["Api::add_class, remove_class, set_id, remove_id"])
p("C13", "Inserted text is escaped, whatever way it enters",
  "Text inserted as content or as attribute value through any conversion (string, static text, data, value, owned or borrowed) appears with & < > and \" replaced by their entities and everything else unchanged, so it can neither open or close a tag nor end an attribute value, and decoding it gives back the text. It is encoded exactly once, also when a value is reused, copied, joined to an existing value, or passes through further transformations. Integers of every type appear as their decimal representation, and template content is inserted as markup without any further encoding.",
  ["inputs", "programs"], "all texts, all conversion routes, all insertion operations and reuse of encoded values",
  "Tests insert a few plain strings by some routes; escaping must hold for all texts on every route.",
  ["src/text/encoded.rs", "src/text/data.rs", "src/text/value.rs", "src/content.rs", "src/event.rs"],
  [("encode_str_optional", "src/text/encoded.rs"), ("constructors", "src/text/data.rs, src/text/value.rs, src/content.rs"), ("joining", "src/text/encoded.rs: join, push_encoded_str")],
  (), ["inserted content and attribute values in rendered output", "as_encoded_ref"])
p("C14", "A reached error fails the transformation and is reported as it is",
  "If producing the output reaches a failure (an invalid selector or name, failed content, a failing user stream or template function) the whole transformation returns an error and no template. The error is the failure that comes first in output order, with its original kind and details, at any nesting, and its cause chain leads to the underlying error. Failures in places the transformation never reaches (selections that match nothing, repetitions without items, alternatives not taken, contents of void elements) have no effect.",
  ["inputs", "programs", "fault_sequences"], "all transformations with failures injected at any set of places, including content that fails after some events",
  "Tests check single failures at the top; which failure wins and whether it is reached depends on document, program and position.",
  ["src/modifier/mod.rs", "src/event.rs", "src/content.rs", "src/template.rs", "src/select.rs", "src/modifier/apply.rs"],
  [("Fallible", "src/modifier/mod.rs"), ("Result as content", "src/content.rs"), ("error conversion and causes", "src/event.rs: StreamError; src/select.rs")],
  (), ["Template::transform result", "error::Error::cause"])
p("C15", "Transforming a nested document yields a nested document",
  "If the document and all inserted content are properly nested, the result of any successful transformation is properly nested: every opening tag has its matching closing tag and vice versa. Its rendering is accepted by the parser again and gives the same document, apart from neighbouring text being merged.",
  ["inputs", "programs"], "all properly nested documents and contents and all transformations, with ordinary names and without raw-text elements as insertion targets",
  "Tests look at literal outputs; balance has to hold for every combination of operations and documents.",
  ["src/modifier/select/element.rs", "src/modifier/select/select_contents.rs", "src/modifier/mod.rs", "src/modifier/repeat.rs", "src/template.rs", "src/parse.rs"],
  [("element and content slicing", "src/modifier/select"), ("Expand", "src/modifier/mod.rs: Expand"), ("void detection for created elements", "src/template.rs: with_element")],
  (), ["Template::transform", "Template::from_str of the rendering"])
p("C16", "Composition, conditions, boxing and sub-templates add no effect of their own",
  "Applying a transformation through apply, through a boxed stream or boxed element, or through collecting the selection into a template and transforming that, gives the same result as writing it directly, and chaining equals transforming in two passes. Conditional forms run exactly the branch chosen by the condition, option or result, with its value, and apply_if without the condition changes nothing. A created element is a single element with the given name, void if the name is a void one, and a transformed one equals creating it and transforming it.",
  ["inputs", "programs"], "all documents and transformations placed inside any combinator",
  "Tests apply each combinator once; equivalence is over all programs and documents.",
  ["src/transform.rs", "src/modifier/apply.rs", "src/template.rs", "src/builder.rs", "src/event.rs"],
  [("ApplyEither, TemplateApply", "src/modifier/apply.rs"), ("boxed streams", "src/transform.rs; src/event.rs"), ("with_element, with_transformed_element", "src/template.rs")],
  (), ["Api::apply*", "Template::with_element"])
p("C17", "Templates are immutable values",
  "Transforming, rendering, cloning or inserting a template never changes it or any other template or value derived from it, so one template can be used for any number of transformations in any order, also as content of itself. Repeating a transformation on the same template with the same closures' results gives an equal template each time, and templates compare equal exactly if their nodes do (names ignoring ASCII case, text however it is stored).",
  ["histories", "programs"], "all histories of operations over a growing set of templates and values that share storage",
  "Tests use each template once; sharing bugs appear only in histories where earlier templates are looked at again.",
  ["src/template.rs", "src/event.rs", "src/text/encoded.rs", "src/text/deferred.rs"],
  [("shared event vector", "src/template.rs: Template.events"), ("shared attribute list, copied on edit", "src/event.rs: Attributes"), ("shared text buffers", "src/text/encoded.rs")],
  [("events", "shared nodes", "src/template.rs")], ["Display, PartialEq, Clone of Template"])
p("C18", "Loading a file equals parsing its text",
  "Loading a file gives the same template or the same parse error as parsing the file's complete text with the same options, independent of the file's size, of how reads are chunked and of where multi-byte characters fall. A file that is not UTF-8 gives a decode error, one longer than the length limit gives the length error (for any excess), and files that cannot be opened or read give the respective error; each carries the path and the underlying error.",
  ["inputs", "schedules", "fault_sequences"], "all byte contents, sizes around buffer boundaries, read chunkings and limits",
  "No test loads a file; chunk boundaries relative to characters, limits and the end matter.",
  ["src/template.rs"], [("buffered reading loop", "src/template.rs: from_file"), ("file errors", "src/template.rs: FileError")],
  [("input", "bytes read so far", "src/template.rs: from_file")], ["Template::from_file"])
p("C19", "Malformed streams are reported as assertion errors, never repaired or misread",
  "When content inserted by the user makes the stream malformed, a transformation that depends on the broken structure reports an assertion error that names what was expected, the tag concerned and what was found: a closing tag where none is open, a selected item that is no element start, or contents whose closing tag is missing. Events that are passed through without their structure mattering are passed unchanged. Well-formed parts before the fault are processed normally.",
  ["inputs", "programs", "fault_sequences"], "all event sequences produced by user streams (missing, surplus and crossed tags), custom selectors, and transformations applied to them",
  "Tests contain a couple of malformed cases; the reaction must be right for every defect position relative to selections and contents.",
  ["src/modifier/mod.rs", "src/modifier/select/mod.rs", "src/modifier/select/element.rs", "src/modifier/select/select_contents.rs", "src/modifier/attribute.rs", "src/event.rs"],
  [("Level::adjust", "src/modifier/mod.rs"), ("has_reached_end, CurrentContent", "src/modifier/select/select_contents.rs"), ("expected_open checks", "src/modifier/attribute.rs, src/modifier/mod.rs")],
  (), ["StreamError::Assertion values"])
p("C20", "Transformation is one lazy pass in document order",
  "Closures and iterators are run in one pass: for each selected element or repeated item exactly one call, in document and item order, interleaved across chained transformations as the stream reaches them, and not at all for what is never reached. User streams and item iterators are read from front to back, only as far as needed, and never again after they have ended or failed. After a failure nothing further is called.",
  ["programs", "histories", "fault_sequences"], "all programs with observable closures, iterators and user streams, including failing ones",
  "No test observes the order or number of calls across chained and nested transformations or reads after the end.",
  ["src/modifier/mod.rs", "src/modifier/select/mod.rs", "src/modifier/repeat.rs", "src/modifier/apply.rs", "src/template.rs"],
  [("State::step (fused)", "src/modifier/mod.rs"), ("pull chain", "src/event.rs: Stream"), ("lazy builders", "src/transform.rs: build_once, build_mut, build_mut_mapped")],
  [("inner", "state machine of a modifier, empty once ended", "src/modifier/mod.rs: State")], ["call log of user closures, iterators and streams"])
p("C21", "Parsing and transforming always terminate without panicking",
  "For every input text, file content, selector, name, content and transformation, parsing, transforming and rendering return a result: they do not panic, loop or run away, whatever characters the text contains, wherever it is cut off, and however deep, long or malformed the document or the inserted stream is. Work and memory stay in proportion to input, inserted content and repetitions.",
  ["inputs", "programs"], "arbitrary texts (any Unicode, truncated constructs), malformed streams, large documents and all transformations",
  "Tests cannot sample arbitrary texts and truncations; slicing at character boundaries and progress must hold for all.",
  ["src/parse.rs", "src/input.rs", "src/select.rs", "src/text/encoded.rs", "src/modifier/mod.rs"],
  [("input slicing", "src/input.rs"), ("progress of the tokenizer", "src/parse.rs"), ("progress of streams", "src/event.rs: next_event_skip_noop; src/modifier")],
  (), ["return of every public operation"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
