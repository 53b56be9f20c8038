//! Runs transformation programs (given as JSON) on the public API of the library.

use std::cell::{ Cell, RefCell };
use std::rc::Rc;

use html5_fuser::event::{ Event, IntoStream, StreamError };
use html5_fuser::select::{ self, IntoSelector, Selector };
use html5_fuser::template::{ FileError, InputError };
use html5_fuser::text::{ Data, Identifier, IdentifierError, IntoIdentifier, IntoValue, Value };
use html5_fuser::{ BoxedApi, BoxedElementApi, ParseOptions, Stream, Template };

use crate::json::*;
use crate::observe::*;

/// Raised (as panic payload) when the library does not parse a snippet the case is built from.
pub struct Skip(pub String);

pub fn skip(reason: String) -> ! { std::panic::resume_unwind(Box::new(Skip(reason))) }

thread_local! {
    pub static OPTIONS: Cell<i64> = Cell::new(0);
    static STATICS: RefCell<Vec<&'static str>> = RefCell::new(Vec::new());
    pub static STORE: RefCell<Vec<Template>> = RefCell::new(Vec::new());
}

/// A `&'static str`. What begins like one of the last ones is a part of it, at the same
/// address, as literals can be; nothing is freed or counted as used by the library.
pub fn leak(text: String) -> &'static str {
    use std::alloc::{ GlobalAlloc, Layout, System };
    STATICS.with(|statics| {
        let mut statics = statics.borrow_mut();
        if let Some(longer) = statics.iter().rev().find(|longer| longer.starts_with(&text)) {
            return &longer[..text.len()];
        }
        if text.is_empty() { return ""; }
        let layout = Layout::array::<u8>(text.len()).expect("layout");
        let made: &'static str = unsafe {
            let raw = System.alloc(layout);
            assert!(!raw.is_null(), "out of memory");
            std::ptr::copy_nonoverlapping(text.as_ptr(), raw, text.len());
            std::str::from_utf8_unchecked(std::slice::from_raw_parts(raw, text.len()))
        };
        if statics.len() >= 200 { statics.drain(..100); }
        statics.push(made);
        made
    })
}

/// The text of a content or value, which can be one that is repeated.
fn words(c: &J) -> String { c.at("x").text().repeat(c.int_or("many", 1) as usize) }

pub fn options(maxd: i64, maxl: i64) -> ParseOptions {
    // (negative limits are beyond any size, but for -1, which is none)
    let limit = |n: i64| match n {
        -1 => None,
        -2 => Some(usize::MAX),
        -3 => Some(1 << 31),
        -4 => Some((1 << 32) + 2),
        -5 => Some((1 << 63) + 1),
        -6 => Some(i32::MAX as usize),
        n => Some(n as usize),
    };
    let (depth, len) = (limit(maxd), limit(maxl));
    let set = |mut options: ParseOptions| {
        if let Some(depth) = depth { options = options.max_stack_depth(depth); }
        if let Some(len) = len { options = options.max_input_len(len); }
        options
    };
    // the same options, made in different ways
    match OPTIONS.with(|form| form.get()) {
        1 => ParseOptions { max_stack_depth: depth, max_input_len: len },
        2 => set(ParseOptions::default().max_input_len(1).max_stack_depth(0).no_max_input_len().no_max_stack_depth()),
        3 => {
            let mut options = ParseOptions::default().max_stack_depth(depth.unwrap_or(1)).max_input_len(len.unwrap_or(2));
            if depth.is_none() { options = options.no_max_stack_depth(); }
            if len.is_none() { options = options.no_max_input_len(); }
            options
        },
        4 => {
            let mut options: ParseOptions = Default::default();
            options.max_input_len = len;
            options.max_stack_depth = depth;
            options
        },
        5 => set(set(ParseOptions::default().no_max_stack_depth().no_max_input_len()).clone()),
        _ => set(ParseOptions::default()),
    }
}

/************************************ documents *************************************/

fn render_attrs(e: &J) -> String {
    e.at("a").arr().iter().map(|a| {
        if a.at("h").bool() {
            format!(" {}=\"{}\"", a.at("n").text(), a.at("v").text())
        } else {
            format!(" {}", a.at("n").text())
        }
    }).collect()
}

/// Canonical text of an event given in a case.
pub fn render(e: &J) -> String {
    match e.at("k").str() {
        "doctype" => format!("<!doctype {}>", e.at("x").text()),
        "comment" => format!("<!--{}-->", e.at("x").text()),
        "data" | "raw" => e.at("x").text(),
        "open" | "void" => format!("<{}{}>", e.at("t").text(), render_attrs(e)),
        "self" => format!("<{}{} />", e.at("t").text(), render_attrs(e)),
        "close" => format!("</{}>", e.at("t").text()),
        "noop" => String::new(),
        k => fail(&format!("unknown event kind {}", k)),
    }
}

fn snippet(text: &str) -> Vec<Event> {
    match Template::from_str(text, ParseOptions::default()) {
        Ok(template) => events_of(&template),
        Err(_) => skip(format!("snippet {:?}", text)),
    }
}

/// A single event as given in a case.
pub fn make_event(e: &J) -> Event {
    let text = render(e);
    let kind_wanted = e.at("k").str();
    let made = match kind_wanted {
        "noop" => Ok::<Template, StreamError>(Template::from_str("", ParseOptions::default()).unwrap())
            .into_stream().next_event().ok().and_then(|e| e),
        "data" if text.is_empty() => "".into_stream().next_event().ok().and_then(|e| e),
        // (in an element which it does not end)
        "raw" => ["script", "style", "title", "textarea"].iter().find_map(|tag| {
            let events = match Template::from_str(&format!("<{}>{}</{}>", tag, text, tag), ParseOptions::default()) {
                Ok(template) => events_of(&template),
                Err(_) => return None,
            };
            if events.len() == 3 { events.into_iter().nth(1) } else { None }
        }),
        "open" => snippet(&format!("{}</{}>", text, e.at("t").text())).into_iter().next(),
        "close" => snippet(&format!("<{}></{}>", e.at("t").text(), e.at("t").text())).into_iter().last(),
        _ => snippet(&text).into_iter().next(),
    };
    match made {
        Some(ref event) if kind(event) == kind_wanted && event.to_string() == text => event.clone(),
        _ => skip(format!("event {:?}", text)),
    }
}

/// A template with the given events: parsed from text, or collected from a stream.
pub fn make_template(source: &J, parsed: bool) -> Template {
    let evs = source.arr();
    let template = if parsed {
        let text: String = evs.iter().map(render).collect();
        match Template::from_str(&text, ParseOptions::default()) {
            Ok(template) => template,
            Err(_) => return make_template(source, false),
        }
    } else {
        let events = evs.iter().map(make_event).collect();
        let empty = Template::from_str("", ParseOptions::default()).unwrap();
        match empty.transform(|html| html.append(Given { events, error: None, next: 0, id: 0 })) {
            Ok(template) => template,
            Err(_) => skip("document from stream".into()),
        }
    };
    let expected: Vec<J> = evs.iter()
        .filter(|e| e.at("k").str() != "noop" && !(parsed && render(e).is_empty()))
        .map(|e| obs_of(e.at("k").str(), &render(e)))
        .collect();
    let found: Vec<J> = events_of(&template).iter()
        .map(obs_event)
        .filter(|o| !(parsed && o.at("r").arr().is_empty()))
        .collect();
    if expected != found {
        if parsed { return make_template(source, false); }
        skip("document differs".into());
    }
    template
}

/// User defined stream.
pub struct Given {
    events: Vec<Event>,
    error: Option<StreamError>,
    next: usize,
    id: i64,
}

impl Stream for Given {
    fn next_event(&mut self) -> Result<Option<Event>, StreamError> {
        if self.next < self.events.len() {
            self.next += 1;
            if kind(&self.events[self.next - 1]) != "noop" {
                log("pull", self.id, self.pulled());
            }
            Ok(Some(self.events[self.next - 1].clone()))
        } else if let Some(error) = self.error.take() {
            log("pullerr", self.id, 0);
            Err(error)
        } else {
            log("pullend", self.id, 0);
            // not fused: goes on if it is asked again
            self.next = 0;
            Ok(None)
        }
    }
}

impl Given {
    fn pulled(&self) -> i64 {
        if self.id == 0 { return 0; }
        self.events[..self.next].iter().filter(|e| kind(e) != "noop").count() as i64
    }
}

/************************************ errors ****************************************/

pub fn id_error(e: &J) -> IdentifierError {
    let c = || std::char::from_u32(e.at("c").int() as u32).expect("char");
    match e.at("e").str() {
        "Empty" => IdentifierError::Empty,
        "NotAscii" => IdentifierError::NotAscii,
        "Whitespace" => IdentifierError::Whitespace { whitespace: c() },
        "Forbidden" => IdentifierError::Forbidden { forbidden: c() },
        k => fail(&format!("unknown identifier error {}", k)),
    }
}

/// An error a user could return, from its description.
pub fn make_error(e: &J) -> Option<StreamError> {
    match e.at("e").str() {
        "none" => None,
        "Identifier" => Some(id_error(e.at("id")).into()),
        "Input" => {
            let i = e.at("i");
            Some(match i.at("e").str() {
                "LengthLimitExceeded" =>
                    InputError::LengthLimitExceeded { limit: i.at("limit").int() as usize }.into(),
                k => fail(&format!("unsupported input error {}", k)),
            })
        },
        "File" => {
            let path = "/nonexistent/template".into();
            let io = || std::io::Error::new(std::io::ErrorKind::Other, "custom io problem");
            Some(match e.at("f").at("e").str() {
                "Open" => FileError::Open { path, error: io() },
                "Read" => FileError::Read { path, error: io() },
                "Decode" => {
                    let bytes = [0x61u8, 0xff];
                    FileError::Decode { path, error: std::str::from_utf8(&bytes[..]).unwrap_err() }
                },
                "Input" => FileError::Input {
                    path,
                    error: InputError::LengthLimitExceeded {
                        limit: e.at("f").at("i").at("limit").int() as usize,
                    },
                },
                k => fail(&format!("unknown file error {}", k)),
            }.into())
        },
        "Selector" => {
            let i = e.at("s");
            Some(StreamError::Selector { error: match i.at("e").str() {
                "Tag" => select::Error::Tag { error: id_error(i.at("id")) },
                "Id" => select::Error::Id { error: id_error(i.at("id")) },
                "Class" => select::Error::Class { error: id_error(i.at("id")) },
                k => fail(&format!("unsupported selector error {}", k)),
            } })
        },
        "StaticSelector" => {
            let i = e.at("s");
            Some(StreamError::StaticSelector { error: match i.at("e").str() {
                "Unrestricted" => select::StaticError::Unrestricted,
                "Class" => select::StaticError::Class {
                    index: i.at("index").int() as usize,
                    error: id_error(i.at("id")),
                },
                k => fail(&format!("unsupported static selector error {}", k)),
            } })
        },
        k => fail(&format!("unknown error {}", k)),
    }
}

/************************************ programs **************************************/

pub type Env = Rc<Vec<i64>>;

fn pushed(env: &Env, value: i64) -> Env {
    let mut new = (**env).clone();
    new.push(value);
    Rc::new(new)
}

fn env_at(env: &Env, depth: i64) -> i64 { env[env.len() - 1 - depth as usize] }

/// A stream within a transformation: any stream or an element.
pub enum H<'t> {
    S(BoxedApi<'t>),
    E(BoxedElementApi<'t>),
}

use self::H::*;

impl<'t> H<'t> {
    pub fn s(self) -> BoxedApi<'t> {
        match self { S(html) => html, E(html) => html.into_boxed() }
    }
    pub fn e(self) -> BoxedElementApi<'t> {
        match self { E(html) => html, S(_) => fail("program is not well-typed") }
    }
}

macro_rules! both {
    ($h:expr, $x:ident => $e:expr) => { match $h { S($x) => $e, E($x) => $e } }
}

const ATTR_OPS: &[&str] = &[
    "addattr", "setattr", "replattr", "rmattr", "addto", "addclass", "rmclass", "setid", "rmid",
];

/// Does a program yield an element if started on one (or not)?
pub fn elem_after(prog: &J, mut elem: bool) -> bool {
    for o in prog.arr() {
        elem = match o.at("o").str() {
            "sel" => o.at("sub").bool(),
            "subc" | "removec" | "prependc" | "appendc" | "replacec" | "repeatc" => true,
            k if ATTR_OPS.contains(&k) => true,
            "apply" | "boxel" => elem_after(o.at("p"), elem),
            "if" => elem && elem_after(o.at("p"), elem),
            "ifelse" | "opt" | "res" => elem_after(o.at("p"), elem) && elem_after(o.at("q"), elem),
            _ => false,
        };
    }
    elem
}

pub fn run<'t>(prog: &'static J, mut html: H<'t>, env: &Env) -> H<'t> {
    for o in prog.arr() {
        html = op(o, html, env);
    }
    html
}

/// Items of a repetition.  Not fused: goes on if it is asked again after its end.
pub struct LogIter {
    items: &'static [J],
    /// How often all items are given.
    many: usize,
    next: usize,
    id: i64,
    hint: i64,
}

impl LogIter {
    pub fn of(o: &'static J) -> LogIter {
        LogIter { items: o.at("items").arr(), many: o.int_or("many", 1) as usize, next: 0, id: o.int_or("id", 0), hint: o.int_or("hint", 0) }
    }
}

impl Iterator for LogIter {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        if self.next < self.items.len() * self.many {
            let item = self.items[self.next % self.items.len()].int();
            self.next += 1;
            log("next", self.id, item);
            Some(item)
        } else {
            log("nextend", self.id, 0);
            self.next = 0;
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len() * self.many - self.next;
        match self.hint {
            1 => (n, Some(n)),
            2 => (0, Some(n)),
            3 => (0, Some(n + 1)),
            4 => (n, None),
            5 => (n / 2, Some(n + 7)),
            6 => (n.min(1), Some(usize::MAX)),
            // not to be relied upon
            7 => (2, Some(1)),
            8 => (0, Some(0)),
            _ => (0, None),
        }
    }
}

fn op<'t>(o: &'static J, html: H<'t>, env: &Env) -> H<'t> {
    let id = o.int_or("id", 0);
    let name = o.at("o").str();
    let env = env.clone();
    match name {
        "sel" => op_select(o, html, env),
        "remove" => both!(html, h => S(h.remove().into_boxed())),
        "prepend" => { let c = content(o.at("c"), &env); both!(html, h => S(h.prepend(c).into_boxed())) },
        "append" => { let c = content(o.at("c"), &env); both!(html, h => S(h.append(c).into_boxed())) },
        "replace" => { let c = content(o.at("c"), &env); both!(html, h => S(h.replace(c).into_boxed())) },
        "removec" => E(html.e().remove_contents().into_boxed_element()),
        "prependc" => { let c = content(o.at("c"), &env); E(html.e().prepend_contents(c).into_boxed_element()) },
        "appendc" => { let c = content(o.at("c"), &env); E(html.e().append_contents(c).into_boxed_element()) },
        "replacec" => { let c = content(o.at("c"), &env); E(html.e().replace_contents(c).into_boxed_element()) },
        "subc" => {
            let p = o.at("p");
            E(html.e().subselect_contents(move |h| {
                log("call", id, 0);
                run(p, S(h.into_boxed()), &env).s()
            }).into_boxed_element())
        },
        "repeat" => {
            let p = o.at("p");
            let items = LogIter::of(o);
            match html {
                S(h) => S(h.repeat(items, move |h, it| {
                    log("call", id, it);
                    run(p, S(h.into_boxed()), &pushed(&env, it)).s()
                }).into_boxed()),
                E(h) => S(h.repeat(items, move |h, it| {
                    log("call", id, it);
                    run(p, E(h.into_boxed_element()), &pushed(&env, it)).s()
                }).into_boxed()),
            }
        },
        "repeatelse" => {
            let p = o.at("p");
            let q = o.at("q");
            let items = LogIter::of(o);
            let env2 = env.clone();
            match html {
                S(h) => S(h.repeat_or_else(items, move |h, it| {
                    log("call", id, it);
                    run(p, S(h.into_boxed()), &pushed(&env, it)).s()
                }, move |h| {
                    log("else", id, 0);
                    run(q, S(h), &env2).s()
                }).into_boxed()),
                E(h) => S(h.repeat_or_else(items, move |h, it| {
                    log("call", id, it);
                    run(p, E(h.into_boxed_element()), &pushed(&env, it)).s()
                }, move |h| {
                    log("else", id, 0);
                    run(q, E(h), &env2).s()
                }).into_boxed()),
            }
        },
        "repeatc" => {
            let p = o.at("p");
            let items = LogIter::of(o);
            E(html.e().repeat_contents(items, move |h, it| {
                log("call", id, it);
                run(p, S(h.into_boxed()), &pushed(&env, it)).s()
            }).into_boxed_element())
        },
        "repeatcelse" => {
            let p = o.at("p");
            let q = o.at("q");
            let items = LogIter::of(o);
            let env2 = env.clone();
            S(html.e().repeat_contents_or_else(items, move |h, it| {
                log("call", id, it);
                run(p, S(h.into_boxed()), &pushed(&env, it)).s()
            }, move |h| {
                log("else", id, 0);
                run(q, E(h), &env2).s()
            }).into_boxed())
        },
        "apply" => {
            let p = o.at("p");
            match html {
                S(h) => if elem_after(p, false) {
                    fail("program is not well-typed")
                } else {
                    S(h.apply(|h| { log("call", id, 0); run(p, S(h), &env).s() }))
                },
                E(h) => if elem_after(p, true) {
                    E(h.apply(|h| { log("call", id, 0); run(p, E(h), &env).e() }))
                } else {
                    S(h.apply(|h| { log("call", id, 0); run(p, E(h), &env).s() }))
                },
            }
        },
        "box" => {
            let p = o.at("p");
            S(both!(html, h => h.apply_as_boxed(|h| { log("call", id, 0); run(p, S(h), &env).s() })))
        },
        "boxel" => {
            let p = o.at("p");
            let h = html.e();
            if elem_after(p, true) {
                E(h.apply_as_boxed_element(|h| { log("call", id, 0); run(p, E(h), &env).e() }))
            } else {
                S(h.apply_as_boxed_element(|h| { log("call", id, 0); run(p, E(h), &env).s() }))
            }
        },
        "if" => {
            let p = o.at("p");
            let b = o.at("b").bool();
            match html {
                S(h) => S(h.apply_if(b, |h| { log("call", id, 0); run(p, S(h), &env).s() }).into_boxed()),
                E(h) => if elem_after(p, true) {
                    E(h.apply_if(b, |h| { log("call", id, 0); run(p, E(h), &env).e() }).into_boxed_element())
                } else {
                    S(h.apply_if(b, |h| { log("call", id, 0); run(p, E(h), &env).s() }).into_boxed())
                },
            }
        },
        "ifelse" => {
            let (p, q) = (o.at("p"), o.at("q"));
            let b = o.at("b").bool();
            match html {
                S(h) => S(h.apply_if_else(
                    b,
                    |h| { log("call", id, 0); run(p, S(h), &env).s() },
                    |h| { log("else", id, 0); run(q, S(h), &env).s() },
                ).into_boxed()),
                E(h) => if elem_after(p, true) && elem_after(q, true) {
                    E(h.apply_if_else(
                        b,
                        |h| { log("call", id, 0); run(p, E(h), &env).e() },
                        |h| { log("else", id, 0); run(q, E(h), &env).e() },
                    ).into_boxed_element())
                } else {
                    S(h.apply_if_else(
                        b,
                        |h| { log("call", id, 0); run(p, E(h), &env).s() },
                        |h| { log("else", id, 0); run(q, E(h), &env).s() },
                    ).into_boxed())
                },
            }
        },
        "opt" => {
            let (p, q) = (o.at("p"), o.at("q"));
            let v = if o.at("b").bool() { Some(o.at("v").int()) } else { None };
            match html {
                S(h) => S(h.apply_with_option(
                    v,
                    |h, v| { log("call", id, v); run(p, S(h), &pushed(&env, v)).s() },
                    |h| { log("else", id, 0); run(q, S(h), &env).s() },
                ).into_boxed()),
                E(h) => if elem_after(p, true) && elem_after(q, true) {
                    E(h.apply_with_option(
                        v,
                        |h, v| { log("call", id, v); run(p, E(h), &pushed(&env, v)).e() },
                        |h| { log("else", id, 0); run(q, E(h), &env).e() },
                    ).into_boxed_element())
                } else {
                    S(h.apply_with_option(
                        v,
                        |h, v| { log("call", id, v); run(p, E(h), &pushed(&env, v)).s() },
                        |h| { log("else", id, 0); run(q, E(h), &env).s() },
                    ).into_boxed())
                },
            }
        },
        "res" => {
            let (p, q) = (o.at("p"), o.at("q"));
            let v: Result<i64, i64> = if o.at("b").bool() { Ok(o.at("v").int()) } else { Err(o.at("v").int()) };
            match html {
                S(h) => S(h.apply_with_result(
                    v,
                    |h, v| { log("call", id, v); run(p, S(h), &pushed(&env, v)).s() },
                    |h, v| { log("else", id, v); run(q, S(h), &pushed(&env, v)).s() },
                ).into_boxed()),
                E(h) => if elem_after(p, true) && elem_after(q, true) {
                    E(h.apply_with_result(
                        v,
                        |h, v| { log("call", id, v); run(p, E(h), &pushed(&env, v)).e() },
                        |h, v| { log("else", id, v); run(q, E(h), &pushed(&env, v)).e() },
                    ).into_boxed_element())
                } else {
                    S(h.apply_with_result(
                        v,
                        |h, v| { log("call", id, v); run(p, E(h), &pushed(&env, v)).s() },
                        |h, v| { log("else", id, v); run(q, E(h), &pushed(&env, v)).s() },
                    ).into_boxed())
                },
            }
        },
        "tpl" => both!(html, h => S(h.apply_as_template(move |template: Template| {
            log("tpl", id, 0);
            match o.at("f").str() {
                "id" => Ok(template),
                "run" => template.transform(|h| run(o.at("p"), S(h.into_boxed()), &env).s()),
                "const" => {
                    let c = content(o.at("c"), &env);
                    Template::from_str("", ParseOptions::default()).unwrap().transform(|h| h.append(c))
                },
                "err" => Err(make_error(o.at("err")).expect("error")),
                k => fail(&format!("unknown template function {}", k)),
            }
        }).into_boxed())),
        k if ATTR_OPS.contains(&k) => E(op_attr(o, html.e(), &env)),
        k => fail(&format!("unknown operation {}", k)),
    }
}

/************************************ selections ************************************/

/// Any selector, used through its own implementation.
pub struct DynSel(Box<dyn Fn(&Event) -> bool>);

impl Selector for DynSel {
    fn matches(&self, event: &Event) -> bool { (self.0)(event) }
}

pub struct Kinds(Vec<String>);

impl Selector for Kinds {
    fn matches(&self, event: &Event) -> bool { self.0.iter().any(|k| k == kind(event)) }
}

fn wrapped<T: Selector + 'static>(selector: T, how: &str) -> DynSel {
    match how {
        "plain" => DynSel(Box::new(move |e| selector.matches(e))),
        "ref" => DynSel(Box::new(move |e| <&T as Selector>::matches(&&selector, e))),
        "rc" => {
            let rc = Rc::new(selector);
            DynSel(Box::new(move |e| <Rc<T> as Selector>::matches(&rc, e)))
        },
        "into" => {
            let r: Result<T, StreamError> = selector.into_selector().map_err(Into::into);
            let inner = match r { Ok(inner) => inner, Err(_) => skip("selector conversion".into()) };
            DynSel(Box::new(move |e| inner.matches(e)))
        },
        "res" => {
            let r: Result<T, StreamError> = Ok(selector);
            let inner = match r.into_selector() { Ok(inner) => inner, Err(_) => skip("selector conversion".into()) };
            DynSel(Box::new(move |e| inner.matches(e)))
        },
        k => fail(&format!("unknown selector wrapper {}", k)),
    }
}

pub fn selector(s: &J) -> Result<DynSel, StreamError> {
    let how = s.str_or("w", "plain");
    match s.at("s").str() {
        "static" => leak(s.at("x").text()).into_selector()
            .map(|sel| wrapped(sel, how))
            .map_err(Into::into),
        "tag" => s.at("x").text().parse::<select::Tag>().into_selector()
            .map(|sel| wrapped(sel, how))
            .map_err(Into::into),
        "id" => s.at("x").text().parse::<select::Id>().into_selector()
            .map(|sel| wrapped(sel, how))
            .map_err(Into::into),
        "class" => s.at("x").text().parse::<select::Class>().into_selector()
            .map(|sel| wrapped(sel, how))
            .map_err(Into::into),
        "classes" => {
            let texts: Vec<String> = s.at("xs").arr().iter().map(J::text).collect();
            select::Classes::from_str_iterator(texts.iter().map(|t| &**t)).into_selector()
                .map(|sel| wrapped(sel, how))
                .map_err(Into::into)
        },
        "custom" => Ok(wrapped(
            Kinds(s.at("ks").arr().iter().map(|k| k.str().to_string()).collect()),
            how,
        )),
        k => fail(&format!("unknown selector {}", k)),
    }
}

fn op_select<'t>(o: &'static J, html: H<'t>, env: Env) -> H<'t> {
    let id = o.int_or("id", 0);
    let p = o.at("p");
    let (direct, once, sub) = (o.at("direct").bool(), o.at("once").bool(), o.at("sub").bool());
    let j = o.at("sel");
    // plain static selectors are given to the library as they are
    if j.at("s").str() == "static" && j.str_or("w", "plain") == "plain" {
        return select_with(leak(j.at("x").text()), id, p, direct, once, sub, html, env);
    }
    select_with(selector(j), id, p, direct, once, sub, html, env)
}

fn select_with<'t, M>(
    sel: M, id: i64, p: &'static J, direct: bool, once: bool, sub: bool, html: H<'t>, env: Env,
) -> H<'t>
where M: IntoSelector, M::Selector: 'static {
    let mut k = 0;
    macro_rules! call {
        () => {
            move |h| {
                k += 1;
                log("call", id, k);
                run(p, E(h.into_boxed_element()), &pushed(&env, k)).s()
            }
        }
    }
    macro_rules! call_once {
        () => {
            move |h| {
                log("call", id, 1);
                run(p, E(h.into_boxed_element()), &pushed(&env, 1)).s()
            }
        }
    }
    match (sub, direct, once) {
        (false, false, false) => both!(html, h => S(h.select(sel, call!()).into_boxed())),
        (false, false, true) => both!(html, h => S(h.select_once(sel, call_once!()).into_boxed())),
        (false, true, false) => both!(html, h => S(h.select_direct(sel, call!()).into_boxed())),
        (false, true, true) => both!(html, h => S(h.select_direct_once(sel, call_once!()).into_boxed())),
        (true, false, false) => E(html.e().subselect(sel, call!()).into_boxed_element()),
        (true, false, true) => E(html.e().subselect_once(sel, call_once!()).into_boxed_element()),
        (true, true, false) => E(html.e().subselect_direct(sel, call!()).into_boxed_element()),
        (true, true, true) => E(html.e().subselect_direct_once(sel, call_once!()).into_boxed_element()),
    }
}

/************************************ attributes ************************************/

enum Name {
    Static(&'static str),
    Res(Result<Identifier, IdentifierError>),
    Own(Identifier),
    Ref(Identifier),
}

/// A name in the form in which it is given to the library.
fn name_of(j: &J, how: &str) -> Name {
    let text = j.text();
    let parsed = text.parse::<Identifier>();
    match (how, parsed) {
        ("res", parsed) => Name::Res(parsed),
        ("own", Ok(id)) => Name::Own(id),
        ("ref", Ok(id)) => Name::Ref(id),
        ("resstatic", _) => Name::Res(Identifier::from_static_str(leak(text))),
        ("static", _) => Name::Static(leak(text)),
        (_, parsed) => Name::Res(parsed),
    }
}

macro_rules! with_name {
    ($o:expr, $n:ident => $e:expr) => {
        match name_of($o.at("name"), $o.str_or("nk", "static")) {
            Name::Static($n) => $e,
            Name::Res($n) => $e,
            Name::Own($n) => $e,
            Name::Ref(ref $n) => $e,
        }
    }
}

macro_rules! with_int {
    ($text:expr, $ty:expr, $n:ident => $e:expr) => {
        match $ty {
            "u8" => { let $n: u8 = $text.parse().expect("int"); $e },
            "u16" => { let $n: u16 = $text.parse().expect("int"); $e },
            "u32" => { let $n: u32 = $text.parse().expect("int"); $e },
            "u64" => { let $n: u64 = $text.parse().expect("int"); $e },
            "usize" => { let $n: usize = $text.parse().expect("int"); $e },
            "i8" => { let $n: i8 = $text.parse().expect("int"); $e },
            "i16" => { let $n: i16 = $text.parse().expect("int"); $e },
            "i32" => { let $n: i32 = $text.parse().expect("int"); $e },
            "i64" => { let $n: i64 = $text.parse().expect("int"); $e },
            "isize" => { let $n: isize = $text.parse().expect("int"); $e },
            k => fail(&format!("unknown integer type {}", k)),
        }
    }
}

/// A value converted by the library.
pub fn value_of(v: &J, env: &Env) -> Option<Value> {
    match v.at("c").str() {
        "none" => None,
        "int" => Some(with_int!(v.at("x").text(), v.at("ty").str(), n => n.into_value())),
        "env" => Some(env_at(env, v.at("d").int()).into_value()),
        "str" => Some(leak(words(v)).into_value()),
        "value" => Some(Value::from_unencoded_str(words(v)).into_value()),
        "values" => Some(Value::from_unencoded_static_str(leak(words(v))).into_value()),
        "valueref" => Some((&Value::from_unencoded_str(&words(v))).into_value()),
        k => fail(&format!("unknown value {}", k)),
    }
}

fn op_attr<'t>(o: &J, html: BoxedElementApi<'t>, env: &Env) -> BoxedElementApi<'t> {
    let opname = o.at("o").str();
    if opname == "rmid" {
        return html.remove_id().into_boxed_element();
    }
    match opname {
        "rmattr" => with_name!(o, n => html.remove_attribute(n).into_boxed_element()),
        "addclass" => with_name!(o, n => html.add_class(n).into_boxed_element()),
        "rmclass" => with_name!(o, n => html.remove_class(n).into_boxed_element()),
        "setid" => with_name!(o, n => html.set_id(n).into_boxed_element()),
        _ => {
            let v = o.at("val");
            // strings go to the library as they are
            if v.at("c").str() == "str" {
                attr_value(o, opname, html, leak(words(v)), env)
            } else {
                match value_of(v, env) {
                    Some(value) if v.at("c").str() == "valueref" => attr_value(o, opname, html, &value, env),
                    Some(value) => attr_value(o, opname, html, value, env),
                    None => match opname {
                        "addattr" if o.bool_or("opt", false) =>
                            with_name!(o, n => html.add_attribute(n, None::<Value>).into_boxed_element()),
                        "addattr" => with_name!(o, n => html.add_empty_attribute(n).into_boxed_element()),
                        "setattr" if o.bool_or("opt", false) =>
                            with_name!(o, n => html.set_attribute(n, None::<Value>).into_boxed_element()),
                        "setattr" => with_name!(o, n => html.set_empty_attribute(n).into_boxed_element()),
                        k => fail(&format!("operation {} without value", k)),
                    },
                }
            }
        },
    }
}

fn attr_value<'t, V: IntoValue>(o: &J, opname: &str, html: BoxedElementApi<'t>, value: V, env: &Env)
-> BoxedElementApi<'t> {
    let opt = o.bool_or("opt", false);
    match opname {
        "addattr" if opt => with_name!(o, n => html.add_attribute(n, Some(value)).into_boxed_element()),
        "addattr" => with_name!(o, n => html.add_attribute_with_value(n, value).into_boxed_element()),
        "setattr" if opt => with_name!(o, n => html.set_attribute(n, Some(value)).into_boxed_element()),
        "setattr" => with_name!(o, n => html.set_attribute_with_value(n, value).into_boxed_element()),
        "replattr" => with_name!(o, n => html.replace_attribute_value_if_exists(n, value).into_boxed_element()),
        "addto" => {
            let sep = value_of(o.at("sep"), env).expect("separator");
            with_name!(o, n => html.add_to_attribute(n, value, sep).into_boxed_element())
        },
        k => fail(&format!("unknown attribute operation {}", k)),
    }
}

/************************************ content ***************************************/

fn boxed<T: IntoStream>(content: T) -> Box<dyn Stream> where T::Stream: 'static {
    Box::new(content.into_stream())
}

fn element(name: Name) -> Box<dyn Stream> {
    match name {
        Name::Static(n) => boxed(Template::with_element(n)),
        Name::Res(n) => boxed(Template::with_element(n)),
        Name::Own(n) => boxed(Template::with_element(n)),
        Name::Ref(ref n) => boxed(Template::with_element(n)),
    }
}

pub fn transformed_element(c: &'static J, env: &Env) -> Result<Template, StreamError> {
    let id = c.int_or("id", 0);
    let p = c.at("p");
    macro_rules! build {
        ($n:expr) => {
            Template::with_transformed_element($n, |h| {
                log("call", id, 1);
                run(p, E(h.into_boxed_element()), &pushed(env, 1)).s()
            })
        }
    }
    match name_of(c.at("x"), c.str_or("nk", "static")) {
        Name::Static(n) => build!(n),
        Name::Res(n) => build!(n),
        Name::Own(n) => build!(n),
        Name::Ref(ref n) => build!(n),
    }
}

fn insert_template(template: Template, how: &str) -> Box<dyn Stream> {
    match how {
        "own" => boxed(template),
        "ref" => boxed(&template),
        "rc" => boxed(Rc::new(template)),
        "ok" => boxed(Ok::<Template, StreamError>(template)),
        "okid" => boxed(Ok::<Template, IdentifierError>(template)),
        k => fail(&format!("unknown way to insert a template: {}", k)),
    }
}

pub fn content(c: &'static J, env: &Env) -> Box<dyn Stream> {
    match c.at("c").str() {
        "str" => boxed(leak(words(c))),
        "data" => boxed(Data::from_unencoded_str(words(c))),
        "datas" => boxed(Data::from_unencoded_static_str(leak(words(c)))),
        "dataref" => boxed(&Data::from_unencoded_str(&words(c))),
        "value" => boxed(Value::from_unencoded_str(words(c))),
        "values" => boxed(Value::from_unencoded_static_str(leak(words(c)))),
        "valueref" => boxed(&Value::from_unencoded_str(&words(c))),
        "datafrom" => boxed(Data::from(Value::from_unencoded_str(words(c)))),
        "int" => with_int!(c.at("x").text(), c.at("ty").str(), n => boxed(n)),
        "env" => boxed(env_at(env, c.at("d").int())),
        "tpl" => insert_template(
            make_template(c.at("ev"), c.bool_or("parsed", true)),
            c.str_or("w", "own"),
        ),
        "tplref" => insert_template(
            STORE.with(|s| s.borrow()[c.at("j").int() as usize].clone()),
            c.str_or("w", "own"),
        ),
        "ok" => boxed(Ok::<_, StreamError>(content(c.at("i"), env))),
        "err" => {
            let e = c.at("err");
            // as precise error types where there are conversions
            match e.at("e").str() {
                "Identifier" => boxed(Err::<Template, IdentifierError>(id_error(e.at("id")))),
                _ => match make_error(e).expect("error") {
                    StreamError::Input { error } => boxed(Err::<Template, InputError>(error)),
                    StreamError::File { error } => boxed(Err::<Template, FileError>(error)),
                    error => boxed(Err::<Template, StreamError>(error)),
                },
            }
        },
        "stream" => match c.str_or("sw", "plain") {
            "rc" => boxed(Rc::new(RefCell::new(given(c)))),
            "box" => boxed(Box::new(given(c))),
            _ => boxed(given(c)),
        },
        "parse" => boxed(Template::from_str(
            &c.at("x").text(),
            options(c.at("maxd").int(), c.at("maxl").int()),
        )),
        "elem" => element(name_of(c.at("x"), c.str_or("nk", "static"))),
        "telem" => boxed(transformed_element(c, env)),
        k => fail(&format!("unknown content {}", k)),
    }
}

/************************************ parts of static programs **********************/

pub fn given(c: &J) -> Given {
    let many = c.int_or("many", 1) as usize;
    let events: Vec<Event> = c.at("ev").arr().iter().map(make_event).collect();
    Given {
        events: if many == 1 { events } else {
            events.iter().cycle().take(events.len() * many).cloned().collect()
        },
        error: make_error(c.at("err")),
        next: 0,
        id: c.int_or("id", 0),
    }
}

pub fn ident(j: &J) -> Identifier {
    match j.text().parse() { Ok(id) => id, Err(_) => skip("identifier".into()) }
}

pub fn classes(j: &J) -> Result<select::Classes, select::ClassesError> {
    let texts: Vec<String> = j.arr().iter().map(J::text).collect();
    select::Classes::from_str_iterator(texts.iter().map(|t| &**t))
}

pub fn kinds(j: &J) -> Kinds { Kinds(j.arr().iter().map(|k| k.str().to_string()).collect()) }

pub fn option(o: &J) -> Option<i64> { if o.at("b").bool() { Some(o.at("v").int()) } else { None } }

pub fn result(o: &J) -> Result<i64, i64> {
    if o.at("b").bool() { Ok(o.at("v").int()) } else { Err(o.at("v").int()) }
}

pub fn empty() -> Template { Template::from_str("", ParseOptions::default()).unwrap() }
