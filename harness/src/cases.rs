//! The kinds of cases and what is observed of each.

use std::fs;
use std::io::Write;
use std::path::PathBuf;
use std::rc::Rc;

use html5_fuser::event::{ IntoStream, StreamError };
use html5_fuser::text::{ Data, Identifier, IntoIdentifier, IntoValue, Value };
use html5_fuser::{ ParseOptions, Stream, Template };
use html5_fuser::select::Selector;
use html5_fuser::template::FileError;

use crate::interp::*;
use crate::json::*;
use crate::observe::*;

pub fn execute(case: &'static J) -> J {
    OPTIONS.with(|form| form.set(case.int_or("of", 0)));
    match case.at("k").str() {
        "parse" => parse_case(case),
        "trans" => trans_case(case),
        "sel" => sel_case(case),
        "ident" => ident_case(case),
        "text" => text_case(case),
        "hist" => hist_case(case),
        "file" => file_case(case),
        "big" => big_case(case),
        k => fail(&format!("unknown kind of case {}", k)),
    }
}

fn messages(chain: Vec<String>) -> J { Arr(chain.iter().map(|m| cps(m)).collect()) }

fn parse_case(case: &J) -> J {
    let text = case.at("x").text();
    let (depth, length) = (case.int_or("maxd", -1), case.int_or("maxl", -1));
    // With limits, the same text is read without them as well, before or after: neither
    // reading may have anything to do with the other.
    let free = || Template::from_str(&text, ParseOptions::default());
    let limited = depth != -1 || length != -1;
    let before = if limited && text.len() % 2 == 0 { Some(free()) } else { None };
    let result = Template::from_str(&text, options(depth, length));
    let unlimited = before.or_else(|| if limited { Some(free()) } else { None });
    let free = unlimited.map(|free| obj(vec![
        ("err", match free { Ok(_) => no_err(), Err(ref error) => input_err(error) }),
        ("same", Bool(match (&free, &result) { (Ok(a), Ok(b)) => a == b, _ => true })),
    ]));
    let mut out = parsed(result);
    out.extend(free.map(|free| ("free", free)));
    obj(out)
}

fn parsed(result: Result<Template, html5_fuser::template::InputError>) -> Vec<(&'static str, J)> {
    match result {
        Ok(template) => {
            let rendered = template.to_string();
            let again = match Template::from_str(&rendered, ParseOptions::default()) {
                Ok(second) => obj(vec![
                    ("ok", Bool(true)),
                    ("ev", obs_template(&second)),
                    ("same", Bool(second.to_string() == rendered)),
                ]),
                Err(_) => obj(vec![("ok", Bool(false)), ("ev", Arr(vec![])), ("same", Bool(false))]),
            };
            vec![
                ("ev", obs_template(&template)),
                ("err", no_err()),
                ("tm", Bool(text_matches(&template))),
                ("re", again),
            ]
        },
        Err(error) => vec![
            ("ev", Arr(vec![])),
            ("err", input_err(&error)),
            ("msgs", messages(chain(&error))),
            ("chain", Bool(chain(&error) == expected_input_chain(&error))),
        ],
    }
}

fn result_of(result: &Result<Template, StreamError>) -> Vec<(&'static str, J)> {
    match result {
        Ok(template) => vec![
            ("ev", obs_template(template)),
            ("err", no_err()),
            ("tm", Bool(text_matches(template))),
        ],
        Err(error) => vec![
            ("ev", Arr(vec![])),
            ("err", stream_err(error)),
            ("tm", Bool(true)),
            ("chain", Bool(chain(error) == expected_chain(error))),
            ("msgs", messages(chain(error))),
        ],
    }
}

/// The source document of a case; `parsed` tells how to make it.
fn source(case: &J) -> Template { make_template(case.at("doc"), case.bool_or("parsed", true)) }

fn trans_case(case: &'static J) -> J {
    let template = source(case);
    let before = obs_template(&template);
    let copy = template.clone();
    let prog = case.at("prog");
    take_log();
    let go = || match case.int_or("bank", -1) {
        -1 => template.transform(|html| {
            run(prog, H::S(html.into_boxed()), &Rc::new(Vec::new())).s()
        }),
        shape => crate::bank::run(shape, &template, prog),
    };
    let result = go();
    let log = take_log();
    let mut out = result_of(&result);
    out.push(("log", log));
    out.push(("src", Bool(obs_template(&template) == before && template == copy)));
    if case.bool_or("re", false) {
        out.push(("re", match result.as_ref().map(|t| t.to_string()) {
            Err(_) => obj(vec![("ok", Bool(false)), ("ev", Arr(vec![]))]),
            Ok(text) => match Template::from_str(&text, ParseOptions::default()) {
                Ok(again) => obj(vec![("ok", Bool(true)), ("ev", obs_template(&again))]),
                Err(_) => obj(vec![("ok", Bool(false)), ("ev", Arr(vec![]))]),
            },
        }));
    }
    if case.bool_or("twice", false) {
        let second = go();
        take_log();
        out.push(("twice", Bool(match (&result, &second) {
            (Ok(a), Ok(b)) => a == b && obs_template(a) == obs_template(b),
            (Err(a), Err(b)) => stream_err(a) == stream_err(b),
            _ => false,
        })));
    }
    obj(out)
}

/// Which events of a document does a selector match?
fn sel_case(case: &'static J) -> J {
    let template = source(case);
    match selector(case.at("sel")) {
        Err(error) => obj(vec![
            ("err", stream_err(&error)),
            ("chain", Bool(chain(&error) == expected_chain(&error))),
            ("msgs", messages(chain(&error))),
            ("own", own_chain(case.at("sel"))),
            ("m", Arr(vec![])),
        ]),
        Ok(sel) => obj(vec![
            ("err", no_err()),
            ("m", Arr(events_of(&template).iter().map(|e| Bool(sel.matches(e))).collect())),
        ]),
    }
}

/// Chain of the error which the selector's own type reports.
fn own_chain(sel: &'static J) -> J {
    use html5_fuser::select::{ Class, Classes, Id, Tag };
    let text = || sel.at("x").text();
    let found: Option<Vec<String>> = match sel.at("s").str() {
        "tag" => text().parse::<Tag>().err().map(|e| chain(&e)),
        "id" => text().parse::<Id>().err().map(|e| chain(&e)),
        "class" => text().parse::<Class>().err().map(|e| chain(&e)),
        "classes" => {
            let texts: Vec<String> = sel.at("xs").arr().iter().map(J::text).collect();
            Classes::from_str_iterator(texts.iter().map(|t| &**t)).err().map(|e| chain(&e))
        },
        _ => None,
    };
    messages(found.unwrap_or_default())
}

fn ident_case(case: &'static J) -> J {
    let x = case.at("x").text();
    let y = case.at("y").text();
    let lx = leak(x.clone());
    let mut entries = Vec::new();
    let mut entry = |name: &str, result: J| entries.push(obj(vec![("w", s(name)), ("r", result)]));
    entry("FromStr", id_res(&x.parse::<Identifier>()));
    entry("from_static_str", id_res(&Identifier::from_static_str(lx)));
    entry("&'static str", id_res(&lx.into_identifier()));
    entry("Result", id_res(&x.parse::<Identifier>().into_identifier()));
    entry("with_element", id_res(&Template::with_element(lx)));
    let first = x.parse::<Identifier>();
    let other = y.parse::<Identifier>();
    let mut out = vec![];
    if let Ok(ref id) = first {
        entry("&Identifier", id_res(&(&*id).into_identifier()));
        entry("Identifier", id_res(&id.clone().into_identifier()));
        let kept = [
            id.to_string(), (**id).to_string(),
            Identifier::from_static_str(lx).map(|i| i.to_string()).unwrap_or_default(),
            lx.into_identifier().map(|i| (*i).to_string()).unwrap_or_default(),
            (&*id).into_identifier().map(|i| i.to_string()).unwrap_or_default(),
            id.clone().into_identifier().map(|i| i.to_string()).unwrap_or_default(),
        ];
        out.push(("kept", Arr(kept.iter().map(|k| cps(k)).collect())));
        if let Ok(ref other) = other {
            let st = Identifier::from_static_str(lx);
            out.push(("eq", Arr(vec![
                Bool(id == other), Bool(other == id), Bool(!(id != other)),
                Bool(st.as_ref().map(|st| st == other).unwrap_or(false)),
                Bool(st.as_ref().map(|st| other == st).unwrap_or(false)),
            ])));
        }
    }
    if let Err(ref error) = first {
        out.push(("msg", cps(&error.to_string())));
    }
    out.insert(0, ("entries", Arr(entries)));
    obj(out)
}

/// Every public way from text to encoded text.
fn text_case(case: &'static J) -> J {
    let x = case.at("x").text();
    let lx = leak(x.clone());
    let mut outs: Vec<(&str, String)> = Vec::new();
    let stream_text = |mut stream: Box<dyn Stream>| {
        let mut text = String::new();
        while let Ok(Some(event)) = stream.next_event() { text.push_str(&event.to_string()); }
        text
    };
    let data = Data::from_unencoded_str(&x);
    let datas = Data::from_unencoded_static_str(lx);
    let value = Value::from_unencoded_str(&x);
    let values = Value::from_unencoded_static_str(lx);
    outs.push(("Data::from_unencoded_str", data.to_string()));
    outs.push(("Data::from_unencoded_str(String)", Data::from_unencoded_str(x.clone()).to_string()));
    outs.push(("Data::from_unencoded_static_str", datas.to_string()));
    outs.push(("Data.as_encoded_ref", data.as_encoded_ref().to_string()));
    outs.push(("Data static.as_encoded_ref", datas.as_encoded_ref().to_string()));
    outs.push(("Data.clone", data.clone().to_string()));
    outs.push(("Value::from_unencoded_str", value.to_string()));
    outs.push(("Value::from_unencoded_static_str", values.to_string()));
    outs.push(("Value.as_encoded_ref", value.as_encoded_ref().to_string()));
    outs.push(("Value static.as_encoded_ref", values.as_encoded_ref().to_string()));
    outs.push(("Data::from(Value)", Data::from(value.clone()).to_string()));
    outs.push(("Data::from(static Value)", Data::from(values.clone()).to_string()));
    outs.push(("str.into_value", lx.into_value().to_string()));
    outs.push(("Value.into_value", value.clone().into_value().to_string()));
    outs.push(("&Value.into_value", (&value).into_value().to_string()));
    outs.push(("str.into_stream", stream_text(Box::new(lx.into_stream()))));
    outs.push(("Data.into_stream", stream_text(Box::new(data.clone().into_stream()))));
    outs.push(("&Data.into_stream", stream_text(Box::new((&data).into_stream()))));
    outs.push(("Value.into_stream", stream_text(Box::new(value.clone().into_stream()))));
    outs.push(("&Value.into_stream", stream_text(Box::new((&value).into_stream()))));
    outs.push(("&Data twice", stream_text(Box::new((&data).into_stream()))));
    outs.push(("&Value twice", stream_text(Box::new((&value).into_stream()))));
    // which ways give which text
    let mut groups: Vec<(&str, Vec<&str>)> = Vec::new();
    for &(way, ref text) in &outs {
        match groups.iter().position(|g| g.0 == text) {
            Some(i) => groups[i].1.push(way),
            None => groups.push((text, vec![way])),
        }
    }
    let equal = data == datas && value == values && data == data.clone() && value == value.clone()
        && data.as_encoded_ref() == datas.as_encoded_ref();
    obj(vec![
        ("outs", Arr(groups.iter().map(|g| obj(vec![
            ("w", Arr(g.1.iter().map(|w| s(w)).collect())), ("r", cps(g.0)),
        ])).collect())),
        ("eq", Bool(equal)),
    ])
}

/************************************ histories *************************************/

fn hist_case(case: &'static J) -> J {
    STORE.with(|store| store.borrow_mut().clear());
    let mut seen = Vec::new();
    for step in case.at("steps").arr() {
        let at = |key: &str| STORE.with(|store| store.borrow()[step.at(key).int() as usize].clone());
        let made: Result<Template, J> = match step.at("s").str() {
            "parse" => Template::from_str(&step.at("x").text(), ParseOptions::default())
                .map_err(|e| obj(vec![("e", s("Input")), ("i", input_err(&e))])),
            "elem" => Template::with_element(leak(step.at("x").text()))
                .map_err(|e| obj(vec![("e", s("Identifier")), ("id", id_err(&e))])),
            "telem" => transformed_element(step, &Rc::new(Vec::new())).map_err(|e| stream_err(&e)),
            "clone" => Ok(at("i")),
            "trans" => at("i").transform(|html| {
                run(step.at("prog"), H::S(html.into_boxed()), &Rc::new(Vec::new())).s()
            }).map_err(|e| stream_err(&e)),
            "reparse" => Template::from_str(&at("i").to_string(), ParseOptions::default())
                .map_err(|e| obj(vec![("e", s("Input")), ("i", input_err(&e))])),
            "drop" => {
                // the slot is given another template
                let replacement = at("j");
                STORE.with(|store| store.borrow_mut()[step.at("i").int() as usize] = replacement);
                Err(no_err())
            },
            k => fail(&format!("unknown step {}", k)),
        };
        let err = match made {
            Ok(template) => {
                STORE.with(|store| store.borrow_mut().push(template));
                no_err()
            },
            Err(err) => err,
        };
        let all = STORE.with(|store| Arr(store.borrow().iter().map(obs_template).collect()));
        let tm = STORE.with(|store| store.borrow().iter().all(text_matches));
        let eq = STORE.with(|store| {
            let store = store.borrow();
            Arr(store.iter().map(|a| Arr(store.iter().map(|b| Bool(a == b && !(a != b))).collect())).collect())
        });
        seen.push(obj(vec![("err", err), ("all", all), ("tm", Bool(tm)), ("eq", eq)]));
    }
    STORE.with(|store| store.borrow_mut().clear());
    take_log();
    obj(vec![("seen", Arr(seen))])
}

/************************************ files *****************************************/

/// Bytes of a case: array of bytes or of [byte array, count] pieces.
fn bytes_of(j: &J) -> Vec<u8> {
    let mut out = Vec::new();
    for piece in j.arr() {
        let bytes: Vec<u8> = piece.at("b").arr().iter().map(|b| b.int() as u8).collect();
        for _ in 0..piece.int_or("n", 1) { out.extend_from_slice(&bytes); }
    }
    out
}

extern "C" {
    fn mkfifo(path: *const std::os::raw::c_char, mode: u32) -> i32;
    fn ioctl(fd: i32, request: std::os::raw::c_ulong, ...) -> i32;
}

const FIONREAD: std::os::raw::c_ulong = 0x541B;

/// A name which is not UTF-8.
fn odd_name(name: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut bytes = name.as_bytes().to_vec();
    bytes.extend_from_slice(b" \xff'\n");
    std::ffi::OsString::from_vec(bytes)
}

fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("HARNESS_SCRATCH").unwrap_or_else(|_| fail("HARNESS_SCRATCH is not set")))
}

/// Write pieces of the given sizes into a fifo, each one when the one before has been read.
fn feed(path: PathBuf, bytes: Vec<u8>, sizes: Vec<usize>) {
    use std::os::unix::io::AsRawFd;
    let mut file = match fs::OpenOptions::new().write(true).open(&path) { Ok(f) => f, Err(_) => return };
    let mut at = 0;
    let mut turn = 0;
    while at < bytes.len() {
        let len = sizes[turn % sizes.len()].min(bytes.len() - at).max(1);
        turn += 1;
        if file.write_all(&bytes[at..at + len]).is_err() { return; }
        at += len;
        let mut waits = 0;
        loop {
            let mut left: i32 = 0;
            let r = unsafe { ioctl(file.as_raw_fd(), FIONREAD, &mut left as *mut i32) };
            if r != 0 || left == 0 { break; }
            waits += 1;
            if waits > 20_000 { return; }
            std::thread::sleep(std::time::Duration::from_micros(50));
        }
    }
}

fn file_case(case: &'static J) -> J {
    let opts = options(case.int_or("maxd", -1), case.int_or("maxl", -1));
    let dir = scratch();
    let mode = case.at("mode").str();
    // a file of the system, if it can be read (and is then always the same)
    let system = match mode {
        "system" => fs::read(case.at("system").str()).ok().map(|bytes| (PathBuf::from(case.at("system").str()), bytes)),
        _ => None,
    };
    let bytes = system.as_ref().map(|s| s.1.clone()).unwrap_or_else(|| bytes_of(case.at("bytes")));
    let form = case.str_or("pathform", "ref");
    let name = format!("t{}", case.at("id").int());
    // where it is, and how it is called
    let real = dir.join(if form == "odd" { odd_name(&name) } else { name.clone().into() });
    let link = dir.join(format!("{}-link", name));
    let mut feeder = None;
    match mode {
        "system" if system.is_some() => (),
        "file" | "under" | "system" => fs::write(&real, &bytes).unwrap_or_else(|e| fail(&format!("scratch file: {}", e))),
        "dir" => fs::create_dir(&real).unwrap_or_else(|e| fail(&format!("scratch directory: {}", e))),
        "missing" | "nul" => (),
        "fifo" => {
            use std::os::unix::ffi::OsStrExt;
            let name = std::ffi::CString::new(real.as_os_str().as_bytes()).unwrap();
            if unsafe { mkfifo(name.as_ptr(), 0o600) } != 0 { fail("mkfifo"); }
            let (p, b) = (real.clone(), bytes.clone());
            let sizes = case.at("chunks").arr().iter().map(|c| c.int() as usize).collect();
            feeder = Some(std::thread::spawn(move || feed(p, b, sizes)));
        },
        k => fail(&format!("unknown file mode {}", k)),
    }
    let mut path = match form {
        "dots" => PathBuf::from(format!("{}/./{}", dir.display(), name)),
        "slash" => PathBuf::from(format!("{}//{}", dir.display(), name)),
        "up" => PathBuf::from(format!("{}/../{}/{}", dir.display(), dir.file_name().unwrap().to_str().unwrap(), name)),
        "link" => {
            std::os::unix::fs::symlink(&real, &link).unwrap_or_else(|e| fail(&format!("scratch link: {}", e)));
            link.clone()
        },
        _ => real.clone(),
    };
    match mode {
        "system" => path = system.map(|s| s.0).unwrap_or(path),
        "under" => path.push("x"),
        "nul" => path.push("x\0y"),
        _ => (),
    }
    // the path in the different forms in which it can be given
    let result = match form {
        "own" => Template::from_file(path.clone(), opts),
        "str" => Template::from_file(path.to_str().unwrap(), opts),
        "string" => Template::from_file(path.to_str().unwrap().to_string(), opts),
        "os" => Template::from_file(path.as_os_str(), opts),
        "refref" => Template::from_file(&&*path, opts),
        _ => Template::from_file(&path, opts),
    };
    if let Some(feeder) = feeder {
        use std::io::Read;
        use std::os::unix::fs::OpenOptionsExt;
        // lets the writer finish, however much of the fifo was read (or even opened)
        const O_NONBLOCK: i32 = 0o4000;
        let mut rest = fs::OpenOptions::new().read(true).custom_flags(O_NONBLOCK).open(&real)
            .unwrap_or_else(|e| fail(&format!("fifo: {}", e)));
        let mut buffer = [0; 4096];
        while !feeder.is_finished() {
            let _ = rest.read(&mut buffer);
            std::thread::sleep(std::time::Duration::from_micros(20));
        }
        let _ = feeder.join();
    }
    match mode {
        "dir" => { let _ = fs::remove_dir(&real); },
        _ => { let _ = fs::remove_file(&real); },
    }
    if form == "link" { let _ = fs::remove_file(&link); }
    let mut out = Vec::new();
    if mode == "system" {
        out.push(("content", Arr(bytes.iter().map(|b| Int(*b as i64)).collect())));
    }
    match result {
        Ok(ref template) => {
            out.push(("err", no_err()));
            out.push(("tm", Bool(text_matches(template))));
        },
        Err(ref error) => {
            out.push(("err", file_err(error)));
            out.push(("path", Bool(
                file_err_path(error).as_os_str() == path.as_os_str()
                    && error.to_string().contains(&path.display().to_string())
            )));
            out.push(("chain", Bool(chain(error) == expected_file_chain(error))));
            // the underlying error
            match *error {
                FileError::Open { ref error, .. } | FileError::Read { ref error, .. } =>
                    out.push(("io", s(match error.kind() {
                        std::io::ErrorKind::NotFound => "NotFound",
                        std::io::ErrorKind::InvalidInput => "InvalidInput",
                        _ => "other",
                    }))),
                FileError::Decode { ref error, .. } => out.push(("valid", Int(error.valid_up_to() as i64))),
                FileError::Input { .. } => (),
            }
        },
    }
    // what the text of the file gives
    match std::str::from_utf8(&bytes) {
        Err(ref error) => {
            out.push(("utf8", Bool(false)));
            out.push(("upto", Int(error.valid_up_to() as i64)));
        },
        Ok(text) => {
            out.push(("utf8", Bool(true)));
            match Template::from_str(text, opts) {
                Ok(ref direct) => {
                    out.push(("serr", no_err()));
                    out.push(("same", Bool(match result {
                        Ok(ref template) => template == direct && obs_template(template) == obs_template(direct)
                            && template.to_string() == direct.to_string(),
                        Err(_) => false,
                    })));
                },
                Err(ref error) => out.push(("serr", input_err(error))),
            }
        },
    }
    if case.bool_or("small", false) {
        out.push(("ev", match result { Ok(ref t) => obs_template(t), Err(_) => Arr(vec![]) }));
    }
    obj(out)
}

/************************************ big inputs ************************************/

/// Kind and places of a parse error (the texts in it may be large).
fn big_parse_err(error: &html5_fuser::parse::Error) -> J {
    let all = parse_err(error);
    let mut locs = Vec::new();
    for key in ["loc", "cloc", "oloc"] {
        if all.has(key) { locs.push(all.at(key).clone()); }
    }
    let mut others = 0;
    if all.has("inner") {
        locs.push(all.at("inner").at("loc").clone());
        let list = all.at("others").arr();
        others = list.len();
        if let Some(last) = list.last() { locs.push(last.at("loc").clone()); }
        if let Some(first) = list.first() { locs.push(first.at("loc").clone()); }
    }
    let mut out = vec![("e", all.at("e").clone()), ("locs", Arr(locs)), ("others", Int(others as i64))];
    if all.has("limit") {
        out.push(("limit", all.at("limit").clone()));
        out.push(("tag", all.at("tag").clone()));
    }
    obj(out)
}

pub fn cpu_ms() -> i64 {
    #[repr(C)]
    struct Ts { sec: i64, nsec: i64 }
    extern "C" { fn clock_gettime(id: i32, ts: *mut Ts) -> i32; }
    let mut ts = Ts { sec: 0, nsec: 0 };
    unsafe { clock_gettime(2, &mut ts) };
    ts.sec * 1000 + ts.nsec / 1_000_000
}

fn big_text(j: &J) -> String {
    let mut out = String::new();
    for piece in j.arr() {
        let text = piece.at("x").text();
        let n = piece.int_or("n", 1);
        let num = piece.int_or("num", 0);
        for i in 0..n {
            match num {
                0 => out.push_str(&text),
                // each piece with its number
                _ => out.push_str(&text.replace('#', &format!("{:06}", if num == 1 { i + 1 } else { n - i } % 1_000_000))),
            }
        }
    }
    out
}

/// The sums of the characters of a text, weighted by powers of their positions.
fn digest(text: &str) -> J {
    const P: u64 = 32749;
    let mut d = [0u64; 4];
    for c in text.chars() {
        d[0] += 1;
        let i = d[0] % P;
        let w = i * (c as u64) % P;
        d[1] = (d[1] + c as u64) % P;
        d[2] = (d[2] + w) % P;
        d[3] = (d[3] + i * w) % P;
    }
    d[0] %= P;
    Arr(d.iter().map(|n| Int(*n as i64)).collect())
}

/// Large input: the outcome, sizes, digests of the texts, and the work are observed.
fn big_case(case: &'static J) -> J {
    let text = big_text(case.at("parts"));
    let numbered = case.at("parts").arr().iter().any(|p| p.int_or("num", 0) > 0);
    let masked = |text: &str| match numbered {
        true => digest(&text.chars().map(|c| if c.is_ascii_digit() { '0' } else { c }).collect::<String>()),
        false => digest(text),
    };
    let opts = options(case.int_or("maxd", -1), case.int_or("maxl", -1));
    let start = cpu_ms();
    let base = crate::alloc::reset_peak();
    let result = Template::from_str(&text, opts);
    let mut out = vec![("len", Int(text.len() as i64))];
    let mut work = None;
    match result {
        Err(ref error) => {
            out.push(("ok", Bool(false)));
            let kind = match *error {
                html5_fuser::template::InputError::LengthLimitExceeded { .. } => "LengthLimitExceeded",
                _ => "Parse",
            };
            out.push(("e", s(kind)));
            if let html5_fuser::template::InputError::LengthLimitExceeded { limit } = *error {
                out.push(("limit", Int(limit.min(i32::MAX as usize) as i64)));
            }
            let _ = chain(error);
            if let html5_fuser::template::InputError::Parse { ref error } = *error {
                out.push(("p", big_parse_err(error)));
            }
        },
        Ok(ref template) => {
            let rendered = template.to_string();
            out.push(("ok", Bool(true)));
            let transform = || {
                let done = template.transform(|html| {
                    run(case.at("prog"), H::S(html.into_boxed()), &Rc::new(Vec::new())).s()
                });
                take_log();
                done
            };
            let done = transform();
            let written = done.as_ref().ok().map(|t| t.to_string());
            work = Some((crate::alloc::peak() - base, cpu_ms() - start));
            out.push(("tok", Bool(done.is_ok())));
            match written {
                Some(ref text) => {
                    out.push(("outlen", Int(text.len() as i64)));
                    out.push(("od", masked(text)));
                },
                None => {
                    out.push(("outlen", Int(0)));
                    if let Err(ref e) = done { let _ = chain(e); }
                },
            }
            out.push(("rlen", Int(rendered.len() as i64)));
            out.push(("rd", masked(&rendered)));
            out.push(("exact", Bool(rendered == text)));
            let again = Template::from_str(&rendered, options(-1, -1));
            out.push(("re", Bool(match again {
                Ok(ref t) => t == template && t.to_string() == rendered,
                Err(_) => false,
            })));
            let second = transform();
            out.push(("twice", Bool(match (&done, &second) {
                (&Ok(ref a), &Ok(ref b)) => a == b && written == Some(b.to_string()),
                (&Err(_), &Err(_)) => true,
                _ => false,
            })));
            out.push(("src", Bool(template.to_string() == rendered)));
        },
    }
    let (peak, cpu) = work.unwrap_or_else(|| (crate::alloc::peak() - base, cpu_ms() - start));
    out.push(("peak", Int(peak as i64)));
    out.push(("cpu", Int(cpu)));
    obj(out)
}
