//! What can be observed of the library's values, as JSON.

use std::error::Error;
use std::cell::RefCell;

use html5_fuser::event::{ AssertionError, Event, IntoStream, MalformedReason, StreamError };
use html5_fuser::location::Location;
use html5_fuser::parse;
use html5_fuser::select;
use html5_fuser::template::{ FileError, InputError };
use html5_fuser::text::IdentifierError;
use html5_fuser::{ Stream, Template };

use crate::json::*;

pub fn kind(event: &Event) -> &'static str {
    match event.description() {
        "noop" => "noop",
        "doctype" => "doctype",
        "comment" => "comment",
        "content" => "data",
        "raw content" => "raw",
        "opening tag" => "open",
        "closing tag" => "close",
        "self-closed tag" => "self",
        "void tag" => "void",
        _ => "unknown",
    }
}

pub fn obs_of(kind: &str, rendering: &str) -> J {
    obj(vec![("k", s(kind)), ("r", cps(rendering))])
}

pub fn obs_event(event: &Event) -> J { obs_of(kind(event), &event.to_string()) }

pub fn obs_opt(event: &Option<Event>) -> J {
    match event {
        None => obj(vec![("k", s("none")), ("r", Arr(vec![]))]),
        Some(event) => obs_event(event),
    }
}

/// Raw sequence of events of a template.
pub fn events_of(template: &Template) -> Vec<Event> {
    let mut stream = template.into_stream();
    let mut events = Vec::new();
    loop {
        match stream.next_event() {
            Ok(Some(event)) => events.push(event),
            Ok(None) => return events,
            Err(_) => fail("template stream failed"),
        }
    }
}

pub fn obs_template(template: &Template) -> J {
    Arr(events_of(template).iter().map(obs_event).collect())
}

/// Is the rendering of a template the concatenation of its events' renderings?
pub fn text_matches(template: &Template) -> bool {
    let joined: String = events_of(template).iter().map(|e| e.to_string()).collect();
    joined == template.to_string()
}

pub fn id_err(error: &IdentifierError) -> J {
    match *error {
        IdentifierError::Empty => obj(vec![("e", s("Empty"))]),
        IdentifierError::NotAscii => obj(vec![("e", s("NotAscii"))]),
        IdentifierError::Whitespace { whitespace } =>
            obj(vec![("e", s("Whitespace")), ("c", Int(whitespace as i64))]),
        IdentifierError::Forbidden { forbidden } =>
            obj(vec![("e", s("Forbidden")), ("c", Int(forbidden as i64))]),
    }
}

pub fn no_err() -> J { obj(vec![("e", s("none"))]) }

pub fn id_res<T>(result: &Result<T, IdentifierError>) -> J {
    match result { Ok(_) => no_err(), Err(error) => id_err(error) }
}

fn loc(l: &Location) -> J {
    Arr(vec![Int(l.line() as i64), Int(l.column() as i64), Int(l.offset() as i64)])
}

pub fn parse_err(error: &parse::Error) -> J {
    use html5_fuser::parse::Error::*;
    let e = |name: &str, mut fields: Vec<(&str, J)>| {
        let mut all = vec![("e", s(name))];
        all.append(&mut fields);
        obj(all)
    };
    let place = |x: &(String, Location)| obj(vec![("tag", cps(&x.0)), ("loc", loc(&x.1))]);
    match error {
        UnsupportedDoctype { location, doctype } =>
            e("UnsupportedDoctype", vec![("loc", loc(location)), ("doctype", cps(doctype))]),
        UnclosedDoctype { location } => e("UnclosedDoctype", vec![("loc", loc(location))]),
        UnclosedComment { location } => e("UnclosedComment", vec![("loc", loc(location))]),
        ExpectedOpeningTagClose { tag, location } =>
            e("ExpectedOpeningTagClose", vec![("loc", loc(location)), ("tag", cps(tag))]),
        ExpectedClosingTagClose { tag, location } =>
            e("ExpectedClosingTagClose", vec![("loc", loc(location)), ("tag", cps(tag))]),
        ExpectedOpeningTagIdentifier { location } =>
            e("ExpectedOpeningTagIdentifier", vec![("loc", loc(location))]),
        ExpectedClosingTagIdentifier { location } =>
            e("ExpectedClosingTagIdentifier", vec![("loc", loc(location))]),
        InvalidOpeningTagIdentifier { location, identifier_error } =>
            e("InvalidOpeningTagIdentifier", vec![("loc", loc(location)), ("id", id_err(identifier_error))]),
        InvalidClosingTagIdentifier { location, identifier_error } =>
            e("InvalidClosingTagIdentifier", vec![("loc", loc(location)), ("id", id_err(identifier_error))]),
        InvalidAttributeIdentifier { location, identifier_error } =>
            e("InvalidAttributeIdentifier", vec![("loc", loc(location)), ("id", id_err(identifier_error))]),
        InvalidAttributeValue { location, tag, attribute_name } =>
            e("InvalidAttributeValue",
              vec![("loc", loc(location)), ("tag", cps(tag)), ("attr", cps(attribute_name))]),
        UnclosedAttributeValue { location, tag, attribute_name } =>
            e("UnclosedAttributeValue",
              vec![("loc", loc(location)), ("tag", cps(tag)), ("attr", cps(attribute_name))]),
        UnexpectedInput { location } => e("UnexpectedInput", vec![("loc", loc(location))]),
        MissingClosingTags { inner, others } =>
            e("MissingClosingTags",
              vec![("inner", place(inner)), ("others", Arr(others.iter().map(place).collect()))]),
        StackLimitExceeded { tag, location, limit } =>
            e("StackLimitExceeded",
              vec![("loc", loc(location)), ("tag", cps(tag)), ("limit", Int((*limit).min(i32::MAX as usize) as i64))]),
        UnexpectedClosingTag { tag, location } =>
            e("UnexpectedClosingTag", vec![("loc", loc(location)), ("tag", cps(tag))]),
        MismatchedClosingTag { opening_tag, opening_location, closing_tag, closing_location } =>
            e("MismatchedClosingTag",
              vec![("otag", cps(opening_tag)), ("oloc", loc(opening_location)),
                   ("ctag", cps(closing_tag)), ("cloc", loc(closing_location))]),
    }
}

pub fn input_err(error: &InputError) -> J {
    match error {
        InputError::LengthLimitExceeded { limit } =>
            obj(vec![("e", s("LengthLimitExceeded")), ("limit", Int((*limit).min(i32::MAX as usize) as i64))]),
        InputError::Parse { error } => obj(vec![("e", s("Parse")), ("p", parse_err(error))]),
    }
}

pub fn file_err(error: &FileError) -> J {
    match error {
        FileError::Open { .. } => obj(vec![("e", s("Open"))]),
        FileError::Read { .. } => obj(vec![("e", s("Read"))]),
        FileError::Decode { .. } => obj(vec![("e", s("Decode"))]),
        FileError::Input { error, .. } => obj(vec![("e", s("Input")), ("i", input_err(error))]),
    }
}

pub fn file_err_path(error: &FileError) -> &std::path::Path {
    match error {
        FileError::Open { path, .. } | FileError::Read { path, .. }
        | FileError::Decode { path, .. } | FileError::Input { path, .. } => path,
    }
}

fn classes_err(error: &select::ClassesError) -> J {
    match error {
        select::ClassesError::Empty => obj(vec![("e", s("Empty"))]),
        select::ClassesError::Identifier { index, error } =>
            obj(vec![("e", s("Identifier")), ("index", Int(*index as i64)), ("id", id_err(error))]),
    }
}

fn selector_err(error: &select::Error) -> J {
    match error {
        select::Error::Tag { error } => obj(vec![("e", s("Tag")), ("id", id_err(error))]),
        select::Error::Id { error } => obj(vec![("e", s("Id")), ("id", id_err(error))]),
        select::Error::Class { error } => obj(vec![("e", s("Class")), ("id", id_err(error))]),
        select::Error::Classes { error } => obj(vec![("e", s("Classes")), ("c", classes_err(error))]),
    }
}

fn static_err(error: &select::StaticError) -> J {
    match error {
        select::StaticError::Unrestricted => obj(vec![("e", s("Unrestricted"))]),
        select::StaticError::Tag { error } => obj(vec![("e", s("Tag")), ("id", id_err(error))]),
        select::StaticError::Id { error } => obj(vec![("e", s("Id")), ("id", id_err(error))]),
        select::StaticError::Class { index, error } =>
            obj(vec![("e", s("Class")), ("index", Int(*index as i64)), ("id", id_err(error))]),
    }
}

pub fn stream_err(error: &StreamError) -> J {
    match error {
        StreamError::Assertion { error: AssertionError::Malformed { error } } => match error {
            MalformedReason::UnexpectedClosingTag { tag } =>
                obj(vec![("e", s("Assertion")), ("r", s("UnexpectedClosingTag")), ("tag", cps(tag))]),
            MalformedReason::ExpectedOpeningTag { event } =>
                obj(vec![("e", s("Assertion")), ("r", s("ExpectedOpeningTag")), ("ev", obs_opt(event))]),
            MalformedReason::ExpectedClosingTag { event, tag } =>
                obj(vec![("e", s("Assertion")), ("r", s("ExpectedClosingTag")),
                         ("ev", obs_opt(event)), ("tag", cps(tag))]),
        },
        StreamError::Input { error } => obj(vec![("e", s("Input")), ("i", input_err(error))]),
        StreamError::File { error } => obj(vec![("e", s("File")), ("f", file_err(error))]),
        StreamError::Identifier { error } => obj(vec![("e", s("Identifier")), ("id", id_err(error))]),
        StreamError::Selector { error } => obj(vec![("e", s("Selector")), ("s", selector_err(error))]),
        StreamError::StaticSelector { error } =>
            obj(vec![("e", s("StaticSelector")), ("s", static_err(error))]),
    }
}

/// Messages along the chain of causes, the error itself first.
#[allow(deprecated)]
pub fn chain(error: &dyn Error) -> Vec<String> {
    let mut messages = vec![error.to_string()];
    let mut next = error.cause();
    while let Some(error) = next {
        messages.push(error.to_string());
        next = error.cause();
        if messages.len() > 20 { break; }
    }
    messages
}

fn id_chain(error: &IdentifierError) -> Vec<String> { vec![error.to_string()] }
fn plus<T: Error>(error: &T, mut rest: Vec<String>) -> Vec<String> {
    rest.insert(0, error.to_string());
    rest
}
pub fn expected_parse_chain(error: &parse::Error) -> Vec<String> {
    use html5_fuser::parse::Error::*;
    plus(error, match error {
        InvalidOpeningTagIdentifier { identifier_error, .. }
        | InvalidClosingTagIdentifier { identifier_error, .. }
        | InvalidAttributeIdentifier { identifier_error, .. } => id_chain(identifier_error),
        _ => vec![],
    })
}
pub fn expected_input_chain(error: &InputError) -> Vec<String> {
    plus(error, match error {
        InputError::Parse { error } => expected_parse_chain(error),
        InputError::LengthLimitExceeded { .. } => vec![],
    })
}
pub fn expected_file_chain(error: &FileError) -> Vec<String> {
    plus(error, match error {
        FileError::Open { error, .. } | FileError::Read { error, .. } => vec![error.to_string()],
        FileError::Decode { error, .. } => vec![error.to_string()],
        FileError::Input { error, .. } => expected_input_chain(error),
    })
}
/// The chain of causes that follows from the errors contained in the error.
pub fn expected_chain(error: &StreamError) -> Vec<String> {
    plus(error, match error {
        StreamError::Assertion { error } => plus(error, match error {
            AssertionError::Malformed { error } => vec![error.to_string()],
        }),
        StreamError::Input { error } => expected_input_chain(error),
        StreamError::File { error } => expected_file_chain(error),
        StreamError::Identifier { error } => id_chain(error),
        StreamError::Selector { error } => plus(error, match error {
            select::Error::Tag { error } | select::Error::Id { error } | select::Error::Class { error } =>
                id_chain(error),
            select::Error::Classes { error } => plus(error, match error {
                select::ClassesError::Empty => vec![],
                select::ClassesError::Identifier { error, .. } => id_chain(error),
            }),
        }),
        StreamError::StaticSelector { error } => plus(error, match error {
            select::StaticError::Unrestricted => vec![],
            select::StaticError::Tag { error } | select::StaticError::Id { error }
            | select::StaticError::Class { error, .. } => id_chain(error),
        }),
    })
}

thread_local! {
    static LOG: RefCell<Vec<J>> = RefCell::new(Vec::new());
}

/// Record an observable action (a call of user code).
pub fn log(what: &str, id: i64, x: i64) {
    if id != 0 {
        LOG.with(|l| l.borrow_mut().push(obj(vec![("w", s(what)), ("id", Int(id)), ("x", Int(x))])));
    }
}
pub fn take_log() -> J { Arr(LOG.with(|l| std::mem::replace(&mut *l.borrow_mut(), Vec::new()))) }
