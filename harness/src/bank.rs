//! Programs composed of the library's own stream types.  Written by tools/mkbank.py.

use std::cell::RefCell;
use std::rc::Rc;

use html5_fuser::event::StreamError;
use html5_fuser::select;
use html5_fuser::text::{ Data, Identifier, IdentifierError, Value };
use html5_fuser::{ Stream, Template };

use crate::interp::*;
use crate::json::*;
use crate::observe::*;

type Outcome = Result<Template, StreamError>;

pub fn run(shape: i64, template: &Template, prog: &'static J) -> Outcome {
    match BANK.get(shape as usize) {
        Some(program) => program(template, prog),
        None => fail("unknown shape"),
    }
}

fn program_0(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(Data::from_unencoded_str(p.arr()[0].at("c").at("x").text())).prepend(Data::from_unencoded_static_str(leak(p.arr()[1].at("c").at("x").text()))))
}

fn program_1(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_once(p2.arr()[0].at("sel").at("x").text().parse::<select::Class>(), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }) } }))
}

fn program_2(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(classes(p.arr()[0].at("sel").at("xs")), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.select_once(p2.arr()[0].at("sel").at("x").text().parse::<select::Id>(), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.select(leak(p6.arr()[0].at("sel").at("x").text()), { let (p10, d11) = (p6.arr()[0].at("p"), p6.arr()[0].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9 } }) } }) } }))
}

fn program_3(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(classes(p.arr()[0].at("sel").at("xs")), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).remove())
}

fn program_4(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.select_direct(classes(p2.arr()[0].at("sel").at("xs")), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.remove() } }) } }).select(p.arr()[1].at("sel").at("x").text().parse::<select::Class>(), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9 } }))
}

fn program_5(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(p.arr()[0].at("c").at("x").text().parse::<usize>().expect("int")).append(Data::from_unencoded_static_str(leak(p.arr()[1].at("c").at("x").text()))))
}

fn program_6(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(Template::with_element(ident(p.arr()[0].at("c").at("x")))).select_direct_once(leak(p.arr()[1].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(Rc::new(RefCell::new(given(p2.arr()[0].at("c"))))).append(Template::with_element(leak(p2.arr()[1].at("c").at("x").text()))) } }))
}

fn program_7(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct_once(p.arr()[0].at("sel").at("x").text().parse::<select::Id>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.prepend(Err::<Template, StreamError>(make_error(p2.arr()[0].at("c").at("err")).expect("error"))).prepend(Ok::<_, StreamError>(Err::<Template, StreamError>(make_error(p2.arr()[1].at("c").at("i").at("err")).expect("error")))) } }))
}

fn program_8(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).remove())
}

fn program_9(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append({ let j3 = p.arr()[0].at("c"); let p2 = j3.at("p"); Template::with_transformed_element(leak(j3.at("x").text()), move |h1| { log("call", j3.int_or("id", 0), 1); h1.prepend(Data::from(Value::from_unencoded_str(p2.arr()[0].at("c").at("x").text()))).replace(Box::new(given(p2.arr()[1].at("c"))) as Box<dyn Stream>) }) }).select(classes(p.arr()[1].at("sel").at("xs")), { let (p5, d6) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k7 = 0i64; move |h4| { k7 += 1; let k7 = k7; log("call", d6, k7); h4 } }))
}

fn program_10(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(p.arr()[0].at("sel").at("x").text().parse::<select::Tag>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.prepend(Template::with_element(leak(p2.arr()[0].at("c").at("x").text()))) } }))
}

fn program_11(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct_once(classes(p.arr()[0].at("sel").at("xs")), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).prepend(Template::from_str(&p.arr()[1].at("c").at("x").text(), options(p.arr()[1].at("c").at("maxd").int(), p.arr()[1].at("c").at("maxl").int()))))
}

fn program_12(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(Data::from_unencoded_static_str(leak(p.arr()[0].at("c").at("x").text()))).replace(given(p.arr()[1].at("c"))))
}

fn program_13(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_once(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }) } }))
}

fn program_14(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.prepend(Template::with_element(leak(p2.arr()[0].at("c").at("x").text()))).replace(Box::new(given(p2.arr()[1].at("c"))) as Box<dyn Stream>) } }).select_direct_once(leak(p.arr()[1].at("sel").at("x").text()), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.subselect_direct(leak(p6.arr()[0].at("sel").at("x").text()), { let (p10, d11) = (p6.arr()[0].at("p"), p6.arr()[0].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9 } }).select_once(p6.arr()[1].at("sel").at("x").text().parse::<select::Id>(), { let (p14, d15) = (p6.arr()[1].at("p"), p6.arr()[1].int_or("id", 0)); let mut k16 = 0i64; move |h13| { k16 += 1; let k16 = k16; log("call", d15, k16); h13.remove() } }) } }))
}

fn program_15(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_contents({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.append(p6.arr()[0].at("c").at("x").text().parse::<u16>().expect("int")) } }) } }).select_direct(p.arr()[1].at("sel").at("x").text().parse::<select::Tag>(), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9.prepend(Ok::<Template, IdentifierError>(make_template(p10.arr()[0].at("c").at("ev"), p10.arr()[0].at("c").bool_or("parsed", true)))).replace(Ok::<Template, StreamError>(make_template(p10.arr()[1].at("c").at("ev"), p10.arr()[1].at("c").bool_or("parsed", true)))) } }))
}

fn program_16(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(classes(p.arr()[0].at("sel").at("xs")), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append(Rc::new(RefCell::new(given(p2.arr()[0].at("c"))))) } }).select_direct_once(p.arr()[1].at("sel").at("x").text().parse::<select::Tag>(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }))
}

fn program_17(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(Template::from_str(&p.arr()[0].at("c").at("x").text(), options(p.arr()[0].at("c").at("maxd").int(), p.arr()[0].at("c").at("maxl").int()))).select_once(p.arr()[1].at("sel").at("x").text().parse::<select::Class>(), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }))
}

fn program_18(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(p.arr()[0].at("c").at("x").text().parse::<u32>().expect("int")).remove())
}

fn program_19(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_contents({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.append(Template::with_element(&ident(p6.arr()[0].at("c").at("x")))).select_once(classes(p6.arr()[1].at("sel").at("xs")), { let (p10, d11) = (p6.arr()[1].at("p"), p6.arr()[1].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9 } }) } }) } }))
}

fn program_20(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(p.arr()[0].at("sel").at("x").text().parse::<select::Id>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).replace(Err::<Template, StreamError>(make_error(p.arr()[1].at("c").at("err")).expect("error"))))
}

fn program_21(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(Ok::<Template, StreamError>(make_template(p.arr()[0].at("c").at("ev"), p.arr()[0].at("c").bool_or("parsed", true)))).select(p.arr()[1].at("sel").at("x").text().parse::<select::Id>(), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.select_once(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.append(Ok::<_, StreamError>(&Value::from_unencoded_str(&p6.arr()[0].at("c").at("i").at("x").text()))) } }) } }))
}

fn program_22(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(Data::from(Value::from_unencoded_str(p.arr()[0].at("c").at("x").text()))).select(leak(p.arr()[1].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(p2.arr()[0].at("c").at("x").text().parse::<usize>().expect("int")).append({ let j7 = p2.arr()[1].at("c"); let p6 = j7.at("p"); Template::with_transformed_element(ident(j7.at("x")), move |h5| { log("call", j7.int_or("id", 0), 1); h5.remove_attribute(p6.arr()[0].at("name").text().parse::<Identifier>()).append(p6.arr()[1].at("c").at("x").text().parse::<u16>().expect("int")) }) }).append(p2.arr()[2].at("c").at("x").text().parse::<u16>().expect("int")) } }))
}

fn program_23(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_id(&ident(p2.arr()[0].at("name"))) } }).select(leak(p.arr()[1].at("sel").at("x").text()), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.append(Ok::<_, StreamError>(Ok::<Template, StreamError>(make_template(p6.arr()[0].at("c").at("i").at("ev"), p6.arr()[0].at("c").at("i").bool_or("parsed", true))))) } }))
}

fn program_24(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.select(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.prepend(Rc::new(make_template(p6.arr()[0].at("c").at("ev"), p6.arr()[0].at("c").bool_or("parsed", true)))) } }) } }).select(p.arr()[1].at("sel").at("x").text().parse::<select::Class>(), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9.append(&make_template(p10.arr()[0].at("c").at("ev"), p10.arr()[0].at("c").bool_or("parsed", true))).select_direct_once(leak(p10.arr()[1].at("sel").at("x").text()), { let (p14, d15) = (p10.arr()[1].at("p"), p10.arr()[1].int_or("id", 0)); let mut k16 = 0i64; move |h13| { k16 += 1; let k16 = k16; log("call", d15, k16); h13 } }) } }))
}

fn program_25(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(p.arr()[0].at("c").at("x").text().parse::<i8>().expect("int")).select_direct_once(p.arr()[1].at("sel").at("x").text().parse::<select::Tag>(), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.select(p2.arr()[0].at("sel").at("x").text().parse::<select::Class>(), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).prepend(&make_template(p2.arr()[1].at("c").at("ev"), p2.arr()[1].at("c").bool_or("parsed", true))) } }))
}

fn program_26(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(Box::new(given(p.arr()[0].at("c")))).select_direct_once(classes(p.arr()[1].at("sel").at("xs")), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace(Template::from_str(&p2.arr()[0].at("c").at("x").text(), options(p2.arr()[0].at("c").at("maxd").int(), p2.arr()[0].at("c").at("maxl").int()))) } }))
}

fn program_27(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(Box::new(given(p.arr()[0].at("c")))).remove())
}

fn program_28(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.prepend(Ok::<Template, IdentifierError>(make_template(p2.arr()[0].at("c").at("ev"), p2.arr()[0].at("c").bool_or("parsed", true)))).append(Box::new(given(p2.arr()[1].at("c")))) } }))
}

fn program_29(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.prepend_contents(Err::<Template, IdentifierError>(id_error(p2.arr()[0].at("c").at("err").at("id")))) } }))
}

fn program_30(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(Data::from(Value::from_unencoded_str(p.arr()[0].at("c").at("x").text()))).select_once(leak(p.arr()[1].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }))
}

fn program_31(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(Box::new(given(p.arr()[0].at("c")))).select_once(leak(p.arr()[1].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }))
}

fn program_32(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.remove() } }))
}

fn program_33(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(Ok::<Template, StreamError>(make_template(p.arr()[0].at("c").at("ev"), p.arr()[0].at("c").bool_or("parsed", true)))).replace(Value::from_unencoded_static_str(leak(p.arr()[1].at("c").at("x").text()))))
}

fn program_34(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(Data::from_unencoded_str(p.arr()[0].at("c").at("x").text())).replace(&Data::from_unencoded_str(&p.arr()[1].at("c").at("x").text())))
}

fn program_35(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(p.arr()[0].at("c").at("x").text().parse::<isize>().expect("int")).remove())
}

fn program_36(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(Ok::<_, StreamError>(make_template(p.arr()[0].at("c").at("i").at("ev"), p.arr()[0].at("c").at("i").bool_or("parsed", true)))).select_direct(p.arr()[1].at("sel").at("x").text().parse::<select::Id>(), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.prepend_contents({ let j7 = p2.arr()[0].at("c"); let p6 = j7.at("p"); Template::with_transformed_element(leak(j7.at("x").text()), move |h5| { log("call", j7.int_or("id", 0), 1); h5.append_contents(Rc::new(RefCell::new(given(p6.arr()[0].at("c"))))).replace_contents(Box::new(given(p6.arr()[1].at("c"))) as Box<dyn Stream>).prepend_contents(Box::new(given(p6.arr()[2].at("c"))) as Box<dyn Stream>) }) }) } }))
}

fn program_37(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(make_template(p.arr()[0].at("c").at("ev"), p.arr()[0].at("c").bool_or("parsed", true))).select_once(leak(p.arr()[1].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }))
}

fn program_38(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(p.arr()[0].at("sel").at("x").text().parse::<select::Tag>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).append(Rc::new(RefCell::new(given(p.arr()[1].at("c"))))))
}

fn program_39(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().prepend(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_40(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.prepend(p2.arr()[0].at("c").at("x").text().parse::<u16>().expect("int")).select_once(leak(p2.arr()[1].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.select_once(p6.arr()[0].at("sel").at("x").text().parse::<select::Tag>(), { let (p10, d11) = (p6.arr()[0].at("p"), p6.arr()[0].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9.prepend_contents(&Value::from_unencoded_str(&p10.arr()[0].at("c").at("x").text())) } }).select_direct(leak(p6.arr()[1].at("sel").at("x").text()), { let (p14, d15) = (p6.arr()[1].at("p"), p6.arr()[1].int_or("id", 0)); let mut k16 = 0i64; move |h13| { k16 += 1; let k16 = k16; log("call", d15, k16); h13.append_contents(Rc::new(RefCell::new(given(p14.arr()[0].at("c"))))) } }) } }) } }).prepend(&Data::from_unencoded_str(&p.arr()[1].at("c").at("x").text())))
}

fn program_41(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(&Value::from_unencoded_str(&p.arr()[0].at("c").at("x").text())).prepend(Ok::<Template, IdentifierError>(make_template(p.arr()[1].at("c").at("ev"), p.arr()[1].at("c").bool_or("parsed", true)))))
}

fn program_42(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.prepend(Data::from_unencoded_str(p2.arr()[0].at("c").at("x").text())).append(Template::with_element(leak(p2.arr()[1].at("c").at("x").text()))) } }).append(Template::from_str(&p.arr()[1].at("c").at("x").text(), options(p.arr()[1].at("c").at("maxd").int(), p.arr()[1].at("c").at("maxl").int()))))
}

fn program_43(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(p.arr()[0].at("sel").at("x").text().parse::<select::Id>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(Box::new(given(p2.arr()[0].at("c")))).subselect_direct(leak(p2.arr()[1].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.prepend(Data::from(Value::from_unencoded_str(p6.arr()[0].at("c").at("x").text()))) } }) } }).select_direct(leak(p.arr()[1].at("sel").at("x").text()), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9.subselect_contents({ let (p14, d15) = (p10.arr()[0].at("p"), p10.arr()[0].int_or("id", 0)); move |h13| { log("call", d15, 0); h13.append(k12) } }).replace_contents(k12) } }))
}

fn program_44(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(p.arr()[0].at("c").at("x").text().parse::<i8>().expect("int")).replace(&Value::from_unencoded_str(&p.arr()[1].at("c").at("x").text())))
}

fn program_45(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(Template::from_str(&p.arr()[0].at("c").at("x").text(), options(p.arr()[0].at("c").at("maxd").int(), p.arr()[0].at("c").at("maxl").int()))).prepend(Data::from_unencoded_str(p.arr()[1].at("c").at("x").text())))
}

fn program_46(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(&Value::from_unencoded_str(&p.arr()[0].at("c").at("x").text())).replace(Rc::new(make_template(p.arr()[1].at("c").at("ev"), p.arr()[1].at("c").bool_or("parsed", true)))))
}

fn program_47(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().remove())
}

fn program_48(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(Data::from_unencoded_static_str(leak(p.arr()[0].at("c").at("x").text()))).remove())
}

fn program_49(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(&Value::from_unencoded_str(&p.arr()[0].at("c").at("x").text())).append(Template::with_element(&ident(p.arr()[1].at("c").at("x")))))
}

fn program_50(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(p.arr()[0].at("sel").at("x").text().parse::<select::Class>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.prepend_contents(Box::new(given(p2.arr()[0].at("c")))) } }))
}

fn program_51(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(leak(p.arr()[0].at("c").at("x").text())).select(leak(p.arr()[1].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(make_template(p2.arr()[0].at("c").at("ev"), p2.arr()[0].at("c").bool_or("parsed", true))).remove_contents() } }))
}

fn program_52(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove() } }).select_once(leak(p.arr()[1].at("sel").at("x").text()), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }))
}

fn program_53(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(Template::from_str(&p.arr()[0].at("c").at("x").text(), options(p.arr()[0].at("c").at("maxd").int(), p.arr()[0].at("c").at("maxl").int()))).prepend(Template::with_element(leak(p.arr()[1].at("c").at("x").text()))))
}

fn program_54(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(p.arr()[0].at("sel").at("x").text().parse::<select::Id>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents_or_else(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.remove().append(v8) } }, { let (p10, d11) = (p2.arr()[0].at("q"), p2.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }).repeat(LogIter::of(&p2.arr()[1]), { let (p14, d15) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h13, v16: i64| { log("call", d15, v16); h13 } }) } }).select_once(p.arr()[1].at("sel").at("x").text().parse::<select::Id>(), { let (p18, d19) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k20 = 0i64; move |h17| { k20 += 1; let k20 = k20; log("call", d19, k20); h17.append(Box::new(given(p18.arr()[0].at("c")))).select(classes(p18.arr()[1].at("sel").at("xs")), { let (p22, d23) = (p18.arr()[1].at("p"), p18.arr()[1].int_or("id", 0)); let mut k24 = 0i64; move |h21| { k24 += 1; let k24 = k24; log("call", d23, k24); h21.append(k20) } }) } }))
}

fn program_55(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append(Data::from_unencoded_static_str(leak(p2.arr()[0].at("c").at("x").text()))) } }).repeat(LogIter::of(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }))
}

fn program_56(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.select_once(p2.arr()[0].at("sel").at("x").text().parse::<select::Id>(), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.append_contents(Template::from_str(&p6.arr()[0].at("c").at("x").text(), options(p6.arr()[0].at("c").at("maxd").int(), p6.arr()[0].at("c").at("maxl").int()))) } }) } }, { let (p10, d11) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }))
}

fn program_57(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(given(p2.arr()[0].at("c"))).append(v4).append(Ok::<Template, IdentifierError>(make_template(p2.arr()[2].at("c").at("ev"), p2.arr()[2].at("c").bool_or("parsed", true)))) } }))
}

fn program_58(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(given(p2.arr()[0].at("c"))) } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5 } }))
}

fn program_59(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.select_direct(classes(p2.arr()[0].at("sel").at("xs")), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.append(k4) } }) } }))
}

fn program_60(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append(Data::from(Value::from_unencoded_str(p2.arr()[0].at("c").at("x").text()))) } }).repeat(LogIter::of(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }))
}

fn program_61(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(p2.arr()[0].at("c").at("x").text().parse::<i16>().expect("int")) } }))
}

fn program_62(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.repeat(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }) } }).repeat_or_else(LogIter::of(&p.arr()[1]), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9.repeat(LogIter::of(&p10.arr()[0]), { let (p14, d15) = (p10.arr()[0].at("p"), p10.arr()[0].int_or("id", 0)); move |h13, v16: i64| { log("call", d15, v16); h13.select(leak(p14.arr()[0].at("sel").at("x").text()), { let (p18, d19) = (p14.arr()[0].at("p"), p14.arr()[0].int_or("id", 0)); let mut k20 = 0i64; move |h17| { k20 += 1; let k20 = k20; log("call", d19, k20); h17 } }) } }) } }, { let (p22, d23) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h21| { log("else", d23, 0); h21 } }))
}

fn program_63(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5 } }).repeat_or_else(LogIter::of(&p.arr()[1]), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9.append(Ok::<Template, IdentifierError>(make_template(p10.arr()[0].at("c").at("ev"), p10.arr()[0].at("c").bool_or("parsed", true)))).append(given(p10.arr()[1].at("c"))) } }, { let (p14, d15) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h13| { log("else", d15, 0); h13.append(make_template(p14.arr()[0].at("c").at("ev"), p14.arr()[0].at("c").bool_or("parsed", true))).remove() } }))
}

fn program_64(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.repeat(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }) } }, { let (p10, d11) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }).repeat(LogIter::of(&p.arr()[1]), { let (p14, d15) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h13, v16: i64| { log("call", d15, v16); h13 } }))
}

fn program_65(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }).repeat(LogIter::of(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.append(Data::from_unencoded_str(p6.arr()[0].at("c").at("x").text())).repeat_or_else(LogIter::of(&p6.arr()[1]), { let (p10, d11) = (p6.arr()[1].at("p"), p6.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9.append(Box::new(given(p10.arr()[0].at("c")))) } }, { let (p14, d15) = (p6.arr()[1].at("q"), p6.arr()[1].int_or("id", 0)); move |h13| { log("else", d15, 0); h13.append(v8) } }) } }))
}

fn program_66(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(Value::from_unencoded_static_str(leak(p.arr()[0].at("c").at("x").text()))).repeat(LogIter::of(&p.arr()[1]), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(Ok::<Template, IdentifierError>(make_template(p2.arr()[0].at("c").at("ev"), p2.arr()[0].at("c").bool_or("parsed", true)))).append(Data::from(Value::from_unencoded_str(p2.arr()[1].at("c").at("x").text()))) } }))
}

fn program_67(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).repeat(LogIter::of(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.append(Data::from(Value::from_unencoded_str(p6.arr()[0].at("c").at("x").text()))) } }))
}

fn program_68(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(p.arr()[0].at("sel").at("x").text().parse::<select::Class>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.repeat_or_else(LogIter::of(&p6.arr()[0]), { let (p10, d11) = (p6.arr()[0].at("p"), p6.arr()[0].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9.append(k4).append(Box::new(given(p10.arr()[1].at("c")))) } }, { let (p14, d15) = (p6.arr()[0].at("q"), p6.arr()[0].int_or("id", 0)); move |h13| { log("else", d15, 0); h13.append(Ok::<Template, StreamError>(make_template(p14.arr()[0].at("c").at("ev"), p14.arr()[0].at("c").bool_or("parsed", true)))) } }) } }) } }).repeat(LogIter::of(&p.arr()[1]), { let (p18, d19) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h17, v20: i64| { log("call", d19, v20); h17.repeat(LogIter::of(&p18.arr()[0]), { let (p22, d23) = (p18.arr()[0].at("p"), p18.arr()[0].int_or("id", 0)); move |h21, v24: i64| { log("call", d23, v24); h21 } }) } }))
}

fn program_69(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.append(Data::from(Value::from_unencoded_str(p6.arr()[0].at("c").at("x").text()))) } }))
}

fn program_70(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.select_once(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.add_attribute_with_value(leak(p6.arr()[0].at("name").text()), &Value::from_unencoded_str(&p6.arr()[0].at("val").at("x").text())) } }) } }))
}

fn program_71(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.select_once(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.remove().append(&make_template(p6.arr()[1].at("c").at("ev"), p6.arr()[1].at("c").bool_or("parsed", true))) } }) } }, { let (p10, d11) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9.remove() } }))
}

fn program_72(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(classes(p.arr()[0].at("sel").at("xs")), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_or_else(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.append_contents(Ok::<Template, StreamError>(make_template(p6.arr()[0].at("c").at("ev"), p6.arr()[0].at("c").bool_or("parsed", true)))) } }, { let (p10, d11) = (p2.arr()[0].at("q"), p2.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }) } }))
}

fn program_73(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.repeat(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.append(Rc::new(RefCell::new(given(p6.arr()[0].at("c"))))) } }) } }, { let (p10, d11) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }).select_direct(leak(p.arr()[1].at("sel").at("x").text()), { let (p14, d15) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k16 = 0i64; move |h13| { k16 += 1; let k16 = k16; log("call", d15, k16); h13.repeat_contents(LogIter::of(&p14.arr()[0]), { let (p18, d19) = (p14.arr()[0].at("p"), p14.arr()[0].int_or("id", 0)); move |h17, v20: i64| { log("call", d19, v20); h17.remove().append(Rc::new(RefCell::new(given(p18.arr()[1].at("c"))))) } }).repeat(LogIter::of(&p14.arr()[1]), { let (p22, d23) = (p14.arr()[1].at("p"), p14.arr()[1].int_or("id", 0)); move |h21, v24: i64| { log("call", d23, v24); h21.remove_class(leak(p22.arr()[0].at("name").text())) } }) } }))
}

fn program_74(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct_once(p.arr()[0].at("sel").at("x").text().parse::<select::Tag>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove() } }))
}

fn program_75(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.select(p6.arr()[0].at("sel").at("x").text().parse::<select::Class>(), { let (p10, d11) = (p6.arr()[0].at("p"), p6.arr()[0].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9.append(given(p10.arr()[0].at("c"))) } }) } }).repeat(LogIter::of(&p2.arr()[1]), { let (p14, d15) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h13, v16: i64| { log("call", d15, v16); h13.repeat(LogIter::of(&p14.arr()[0]), { let (p18, d19) = (p14.arr()[0].at("p"), p14.arr()[0].int_or("id", 0)); move |h17, v20: i64| { log("call", d19, v20); h17.append(Template::with_element(p18.arr()[0].at("c").at("x").text().parse::<Identifier>())) } }) } }) } }))
}

fn program_76(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(p.arr()[0].at("sel").at("x").text().parse::<select::Id>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_attribute_value_if_exists(leak(p2.arr()[0].at("name").text()), p2.arr()[0].at("val").at("x").text().parse::<usize>().expect("int")).add_to_attribute(leak(p2.arr()[1].at("name").text()), k4, leak(p2.arr()[1].at("sep").at("x").text())).remove_class(p2.arr()[2].at("name").text().parse::<Identifier>()) } }))
}

fn program_77(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_class(leak(p2.arr()[0].at("name").text())) } }).select_direct(p.arr()[1].at("sel").at("x").text().parse::<select::Tag>(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }))
}

fn program_78(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_attribute_with_value(leak(p2.arr()[0].at("name").text()), p2.arr()[0].at("val").at("x").text().parse::<i64>().expect("int")) } }))
}

fn program_79(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct_once(p.arr()[0].at("sel").at("x").text().parse::<select::Tag>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_to_attribute(leak(p2.arr()[0].at("name").text()), &Value::from_unencoded_str(&p2.arr()[0].at("val").at("x").text()), &Value::from_unencoded_str(&p2.arr()[0].at("sep").at("x").text())) } }).select_once(p.arr()[1].at("sel").at("x").text().parse::<select::Tag>(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.set_id(Identifier::from_static_str(leak(p6.arr()[0].at("name").text()))) } }))
}

fn program_80(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_to_attribute(leak(p2.arr()[0].at("name").text()), k4, leak(p2.arr()[0].at("sep").at("x").text())).add_class(ident(p2.arr()[1].at("name"))) } }))
}

fn program_81(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(Template::with_element(&ident(p2.arr()[0].at("c").at("x")))).select_once(p2.arr()[1].at("sel").at("x").text().parse::<select::Id>(), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.set_attribute_with_value(leak(p6.arr()[0].at("name").text()), Value::from_unencoded_str(p6.arr()[0].at("val").at("x").text())) } }).select_direct(leak(p2.arr()[2].at("sel").at("x").text()), { let (p10, d11) = (p2.arr()[2].at("p"), p2.arr()[2].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9.remove_class(leak(p10.arr()[0].at("name").text())).replace_attribute_value_if_exists(leak(p10.arr()[1].at("name").text()), k12) } }) } }).select_once(p.arr()[1].at("sel").at("x").text().parse::<select::Class>(), { let (p14, d15) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k16 = 0i64; move |h13| { k16 += 1; let k16 = k16; log("call", d15, k16); h13 } }))
}

fn program_82(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(p.arr()[0].at("sel").at("x").text().parse::<select::Tag>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.select_direct(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.remove_class(ident(p6.arr()[0].at("name"))).add_to_attribute(p6.arr()[1].at("name").text().parse::<Identifier>(), leak(p6.arr()[1].at("val").at("x").text()), k8) } }) } }))
}

fn program_83(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_to_attribute(leak(p2.arr()[0].at("name").text()), k4, leak(p2.arr()[0].at("sep").at("x").text())) } }).select_direct(leak(p.arr()[1].at("sel").at("x").text()), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.add_to_attribute(leak(p6.arr()[0].at("name").text()), leak(p6.arr()[0].at("val").at("x").text()), &Value::from_unencoded_str(&p6.arr()[0].at("sep").at("x").text())).remove_class(Identifier::from_static_str(leak(p6.arr()[1].at("name").text()))) } }))
}

fn program_84(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_class(leak(p2.arr()[0].at("name").text())) } }))
}

fn program_85(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_attribute_value_if_exists(&ident(p2.arr()[0].at("name")), Value::from_unencoded_static_str(leak(p2.arr()[0].at("val").at("x").text()))) } }))
}

fn program_86(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_empty_attribute(p2.arr()[0].at("name").text().parse::<Identifier>()).select(leak(p2.arr()[1].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.set_id(ident(p6.arr()[0].at("name"))).remove_id() } }) } }).select(classes(p.arr()[1].at("sel").at("xs")), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9 } }))
}

fn program_87(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).select_direct(classes(p.arr()[1].at("sel").at("xs")), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.add_to_attribute(p6.arr()[0].at("name").text().parse::<Identifier>(), &Value::from_unencoded_str(&p6.arr()[0].at("val").at("x").text()), &Value::from_unencoded_str(&p6.arr()[0].at("sep").at("x").text())) } }))
}

fn program_88(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct_once(p.arr()[0].at("sel").at("x").text().parse::<select::Tag>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.select_direct_once(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }) } }).select(leak(p.arr()[1].at("sel").at("x").text()), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9.select(p10.arr()[0].at("sel").at("x").text().parse::<select::Tag>(), { let (p14, d15) = (p10.arr()[0].at("p"), p10.arr()[0].int_or("id", 0)); let mut k16 = 0i64; move |h13| { k16 += 1; let k16 = k16; log("call", d15, k16); h13 } }) } }))
}

fn program_89(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_empty_attribute(Identifier::from_static_str(leak(p2.arr()[0].at("name").text()))).add_attribute_with_value(leak(p2.arr()[1].at("name").text()), leak(p2.arr()[1].at("val").at("x").text())) } }).select_once(p.arr()[1].at("sel").at("x").text().parse::<select::Tag>(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.add_to_attribute(leak(p6.arr()[0].at("name").text()), p6.arr()[0].at("val").at("x").text().parse::<i32>().expect("int"), k8) } }))
}

fn program_90(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_if_else(p.arr()[0].at("b").bool(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.apply_as_boxed({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.append(Template::with_element(p6.arr()[0].at("c").at("x").text().parse::<Identifier>())) } }) } }, { let (p10, d11) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }))
}

fn program_91(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply({ let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.apply_with_result(result(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.apply_as_template({ let d9 = &p6.arr()[0]; move |template: Template| { log("tpl", d9.int_or("id", 0), 0); let _ = &template; Ok(template) } }) } }, { let (p11, d12) = (p2.arr()[0].at("q"), p2.arr()[0].int_or("id", 0)); move |h10, v13: i64| { log("else", d12, v13); h10 } }) } }))
}

fn program_92(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_with_option(option(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.select(leak(p6.arr()[0].at("sel").at("x").text()), { let (p10, d11) = (p6.arr()[0].at("p"), p6.arr()[0].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9.remove() } }) } }))
}

fn program_93(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_if_else(p.arr()[0].at("b").bool(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.select(p2.arr()[0].at("sel").at("x").text().parse::<select::Id>(), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.append(Rc::new(RefCell::new(given(p6.arr()[0].at("c"))))) } }) } }, { let (p10, d11) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9.apply_with_result(result(&p10.arr()[0]), { let (p14, d15) = (p10.arr()[0].at("p"), p10.arr()[0].int_or("id", 0)); move |h13, v16: i64| { log("call", d15, v16); h13 } }, { let (p18, d19) = (p10.arr()[0].at("q"), p10.arr()[0].int_or("id", 0)); move |h17, v20: i64| { log("else", d19, v20); h17.append(Ok::<_, StreamError>(v20)) } }).apply_with_result(result(&p10.arr()[1]), { let (p22, d23) = (p10.arr()[1].at("p"), p10.arr()[1].int_or("id", 0)); move |h21, v24: i64| { log("call", d23, v24); h21.append(Template::with_element(ident(p22.arr()[0].at("c").at("x")))) } }, { let (p26, d27) = (p10.arr()[1].at("q"), p10.arr()[1].int_or("id", 0)); move |h25, v28: i64| { log("else", d27, v28); h25.append(Box::new(given(p26.arr()[0].at("c")))).append(v28) } }) } }))
}

fn program_94(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_if(p.arr()[0].at("b").bool(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.apply_as_boxed({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.remove() } }) } }))
}

fn program_95(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_if(p.arr()[0].at("b").bool(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.append(Data::from_unencoded_str(p2.arr()[0].at("c").at("x").text())).append(make_template(p2.arr()[1].at("c").at("ev"), p2.arr()[1].at("c").bool_or("parsed", true))) } }))
}

fn program_96(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; { let p3 = d1.at("p"); template.transform(move |h2| h2.select_direct(leak(p3.arr()[0].at("sel").at("x").text()), { let (p5, d6) = (p3.arr()[0].at("p"), p3.arr()[0].int_or("id", 0)); let mut k7 = 0i64; move |h4| { k7 += 1; let k7 = k7; log("call", d6, k7); h4.remove() } }).apply_if(p3.arr()[1].at("b").bool(), { let (p9, d10) = (p3.arr()[1].at("p"), p3.arr()[1].int_or("id", 0)); move |h8| { log("call", d10, 0); h8 } })) } } }))
}

fn program_97(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_with_result(result(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("else", d7, v8); h5.select_direct_once(leak(p6.arr()[0].at("sel").at("x").text()), { let (p10, d11) = (p6.arr()[0].at("p"), p6.arr()[0].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9.apply({ let (p14, d15) = (p10.arr()[0].at("p"), p10.arr()[0].int_or("id", 0)); move |h13| { log("call", d15, 0); h13.append(&make_template(p14.arr()[0].at("c").at("ev"), p14.arr()[0].at("c").bool_or("parsed", true))).append(Err::<Template, IdentifierError>(id_error(p14.arr()[1].at("c").at("err").at("id")))).append(p14.arr()[2].at("c").at("x").text().parse::<u64>().expect("int")) } }).apply_as_template({ let d17 = &p10.arr()[1]; move |template: Template| { log("tpl", d17.int_or("id", 0), 0); let _ = &template; { let p19 = d17.at("p"); template.transform(move |h18| h18) } } }) } }).append(v8) } }))
}

fn program_98(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_if_else(p.arr()[0].at("b").bool(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.append(p2.arr()[0].at("c").at("x").text().parse::<i32>().expect("int")).append(Template::with_element(&ident(p2.arr()[1].at("c").at("x")))) } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.append(Value::from_unencoded_static_str(leak(p6.arr()[0].at("c").at("x").text()))).remove() } }))
}

fn program_99(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_if(p.arr()[0].at("b").bool(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.append(Template::from_str(&p2.arr()[0].at("c").at("x").text(), options(p2.arr()[0].at("c").at("maxd").int(), p2.arr()[0].at("c").at("maxl").int()))) } }).apply_as_template({ let d5 = &p.arr()[1]; move |template: Template| { log("tpl", d5.int_or("id", 0), 0); let _ = &template; { let p7 = d5.at("p"); template.transform(move |h6| h6.append(leak(p7.arr()[0].at("c").at("x").text()))) } } }))
}

fn program_100(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_with_result(result(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("else", d7, v8); h5 } }).apply_with_result(result(&p.arr()[1]), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9 } }, { let (p14, d15) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h13, v16: i64| { log("else", d15, v16); h13 } }))
}

fn program_101(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply({ let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1 } }).apply_with_option(option(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }))
}

fn program_102(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply({ let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1 } }).apply_as_boxed({ let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.apply_if_else(p6.arr()[0].at("b").bool(), { let (p10, d11) = (p6.arr()[0].at("p"), p6.arr()[0].int_or("id", 0)); move |h9| { log("call", d11, 0); h9.apply_with_option(option(&p10.arr()[0]), { let (p14, d15) = (p10.arr()[0].at("p"), p10.arr()[0].int_or("id", 0)); move |h13, v16: i64| { log("call", d15, v16); h13.append(Rc::new(RefCell::new(given(p14.arr()[0].at("c"))))) } }, { let (p18, d19) = (p10.arr()[0].at("q"), p10.arr()[0].int_or("id", 0)); move |h17| { log("else", d19, 0); h17.append(Data::from_unencoded_str(p18.arr()[0].at("c").at("x").text())) } }) } }, { let (p22, d23) = (p6.arr()[0].at("q"), p6.arr()[0].int_or("id", 0)); move |h21| { log("else", d23, 0); h21.select_direct_once(p22.arr()[0].at("sel").at("x").text().parse::<select::Class>(), { let (p26, d27) = (p22.arr()[0].at("p"), p22.arr()[0].int_or("id", 0)); let mut k28 = 0i64; move |h25| { k28 += 1; let k28 = k28; log("call", d27, k28); h25 } }) } }) } }))
}

fn program_103(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(p.arr()[0].at("sel").at("x").text().parse::<select::Class>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).apply_if(p.arr()[1].at("b").bool(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.apply_if_else(p6.arr()[0].at("b").bool(), { let (p10, d11) = (p6.arr()[0].at("p"), p6.arr()[0].int_or("id", 0)); move |h9| { log("call", d11, 0); h9 } }, { let (p14, d15) = (p6.arr()[0].at("q"), p6.arr()[0].int_or("id", 0)); move |h13| { log("else", d15, 0); h13.remove() } }) } }))
}

fn program_104(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(p.arr()[0].at("sel").at("x").text().parse::<select::Tag>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).select(leak(p.arr()[1].at("sel").at("x").text()), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.apply_with_result(result(&p6.arr()[0]), { let (p10, d11) = (p6.arr()[0].at("p"), p6.arr()[0].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9.append(Box::new(given(p10.arr()[0].at("c")))) } }, { let (p14, d15) = (p6.arr()[0].at("q"), p6.arr()[0].int_or("id", 0)); move |h13, v16: i64| { log("else", d15, v16); h13.add_attribute_with_value(&ident(p14.arr()[0].at("name")), leak(p14.arr()[0].at("val").at("x").text())).set_id(ident(p14.arr()[1].at("name"))) } }) } }))
}

fn program_105(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_with_result(result(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.remove() } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("else", d7, v8); h5.remove().append(Ok::<_, StreamError>(Err::<Template, StreamError>(make_error(p6.arr()[1].at("c").at("i").at("err")).expect("error")))) } }))
}

fn program_106(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_with_result(result(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("else", d7, v8); h5.append(Box::new(given(p6.arr()[0].at("c"))) as Box<dyn Stream>) } }).apply({ let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9 } }))
}

fn program_107(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_if_else(p.arr()[0].at("b").bool(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.apply_if(p2.arr()[0].at("b").bool(), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.append(Data::from_unencoded_str(p6.arr()[0].at("c").at("x").text())) } }) } }, { let (p10, d11) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9.apply_as_boxed({ let (p14, d15) = (p10.arr()[0].at("p"), p10.arr()[0].int_or("id", 0)); move |h13| { log("call", d15, 0); h13 } }) } }).apply({ let (p18, d19) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h17| { log("call", d19, 0); h17 } }))
}

fn program_108(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_boxed({ let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1 } }).apply_if_else(p.arr()[1].at("b").bool(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }))
}

fn program_109(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.apply_with_option(option(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }, { let (p10, d11) = (p2.arr()[0].at("q"), p2.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9.append_contents(Template::from_str(&p10.arr()[0].at("c").at("x").text(), options(p10.arr()[0].at("c").at("maxd").int(), p10.arr()[0].at("c").at("maxl").int()))).append(Ok::<_, StreamError>(Err::<Template, StreamError>(make_error(p10.arr()[1].at("c").at("i").at("err")).expect("error")))) } }) } }))
}

fn program_110(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; { let p3 = d1.at("p"); template.transform(move |h2| h2.apply_if(p3.arr()[0].at("b").bool(), { let (p5, d6) = (p3.arr()[0].at("p"), p3.arr()[0].int_or("id", 0)); move |h4| { log("call", d6, 0); h4.remove().remove() } }).apply_as_template({ let d8 = &p3.arr()[1]; move |template: Template| { log("tpl", d8.int_or("id", 0), 0); let _ = &template; empty().transform(move |h| h.append(Data::from(Value::from_unencoded_str(d8.at("c").at("x").text())))) } })) } } }).select(leak(p.arr()[1].at("sel").at("x").text()), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9 } }))
}

fn program_111(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply({ let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.apply_with_option(option(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.append(make_template(p6.arr()[0].at("c").at("ev"), p6.arr()[0].at("c").bool_or("parsed", true))).append(Template::with_element(ident(p6.arr()[1].at("c").at("x")))) } }, { let (p10, d11) = (p2.arr()[0].at("q"), p2.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }) } }).apply_if(p.arr()[1].at("b").bool(), { let (p14, d15) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h13| { log("call", d15, 0); h13.apply({ let (p18, d19) = (p14.arr()[0].at("p"), p14.arr()[0].int_or("id", 0)); move |h17| { log("call", d19, 0); h17.append(Template::from_str(&p18.arr()[0].at("c").at("x").text(), options(p18.arr()[0].at("c").at("maxd").int(), p18.arr()[0].at("c").at("maxl").int()))) } }) } }))
}

fn program_112(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(classes(p.arr()[0].at("sel").at("xs")), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).apply_as_boxed({ let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }))
}

fn program_113(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(classes(p.arr()[0].at("sel").at("xs")), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.apply_if_else(p2.arr()[0].at("b").bool(), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }, { let (p10, d11) = (p2.arr()[0].at("q"), p2.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9.remove_id() } }).apply({ let (p14, d15) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h13| { log("call", d15, 0); h13 } }) } }).append(Box::new(given(p.arr()[1].at("c")))))
}

fn program_114(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; empty().transform(move |h| h.append(Value::from_unencoded_static_str(leak(d1.at("c").at("x").text())))) } }).apply_as_boxed({ let (p3, d4) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h2| { log("call", d4, 0); h2.apply_as_template({ let d6 = &p3.arr()[0]; move |template: Template| { log("tpl", d6.int_or("id", 0), 0); let _ = &template; empty().transform(move |h| h.append(Data::from_unencoded_str(d6.at("c").at("x").text()))) } }) } }))
}

fn program_115(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_attribute_with_value(leak(p2.arr()[0].at("name").text()), Value::from_unencoded_static_str(leak(p2.arr()[0].at("val").at("x").text()))) } }))
}

fn program_116(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).subselect(p2.arr()[1].at("sel").at("x").text().parse::<select::Id>(), { let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9.prepend_contents(k12) } }) } }).prepend(Template::from_str(&p.arr()[1].at("c").at("x").text(), options(p.arr()[1].at("c").at("maxd").int(), p.arr()[1].at("c").at("maxl").int()))))
}

fn program_117(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(Rc::new(make_template(p.arr()[0].at("c").at("ev"), p.arr()[0].at("c").bool_or("parsed", true)))).apply_if_else(p.arr()[1].at("b").bool(), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.replace(Template::with_element(leak(p2.arr()[0].at("c").at("x").text()))) } }, { let (p6, d7) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h5| { log("else", d7, 0); h5 } }))
}

fn program_118(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_with_option(option(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.apply_as_template({ let d5 = &p2.arr()[0]; move |template: Template| { log("tpl", d5.int_or("id", 0), 0); let _ = &template; empty().transform(move |h| h.append(Template::from_str(&d5.at("c").at("x").text(), options(d5.at("c").at("maxd").int(), d5.at("c").at("maxl").int())))) } }).apply_with_result(result(&p2.arr()[1]), { let (p7, d8) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h6, v9: i64| { log("call", d8, v9); h6.append(Template::from_str(&p7.arr()[0].at("c").at("x").text(), options(p7.arr()[0].at("c").at("maxd").int(), p7.arr()[0].at("c").at("maxl").int()))).replace(Data::from_unencoded_str(p7.arr()[1].at("c").at("x").text())) } }, { let (p11, d12) = (p2.arr()[1].at("q"), p2.arr()[1].int_or("id", 0)); move |h10, v13: i64| { log("else", d12, v13); h10.append(Box::new(given(p11.arr()[0].at("c"))) as Box<dyn Stream>).replace(v13) } }) } }, { let (p15, d16) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h14| { log("else", d16, 0); h14.repeat(LogIter::of(&p15.arr()[0]), { let (p19, d20) = (p15.arr()[0].at("p"), p15.arr()[0].int_or("id", 0)); move |h18, v21: i64| { log("call", d20, v21); h18 } }) } }))
}

fn program_119(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().select(classes(p.arr()[1].at("sel").at("xs")), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_contents().repeat_contents(LogIter::of(&p2.arr()[1]), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.remove() } }) } }))
}

fn program_120(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_boxed({ let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1 } }).prepend(make_template(p.arr()[1].at("c").at("ev"), p.arr()[1].at("c").bool_or("parsed", true))))
}

fn program_121(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply({ let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.prepend(Rc::new(make_template(p2.arr()[0].at("c").at("ev"), p2.arr()[0].at("c").bool_or("parsed", true)))) } }).select_once(leak(p.arr()[1].at("sel").at("x").text()), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.subselect_direct(leak(p6.arr()[0].at("sel").at("x").text()), { let (p10, d11) = (p6.arr()[0].at("p"), p6.arr()[0].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9 } }).repeat(LogIter::of(&p6.arr()[1]), { let (p14, d15) = (p6.arr()[1].at("p"), p6.arr()[1].int_or("id", 0)); move |h13, v16: i64| { log("call", d15, v16); h13.repeat_or_else(LogIter::of(&p14.arr()[0]), { let (p18, d19) = (p14.arr()[0].at("p"), p14.arr()[0].int_or("id", 0)); move |h17, v20: i64| { log("call", d19, v20); h17 } }, { let (p22, d23) = (p14.arr()[0].at("q"), p14.arr()[0].int_or("id", 0)); move |h21| { log("else", d23, 0); h21.append({ let j27 = p22.arr()[0].at("c"); let p26 = j27.at("p"); Template::with_transformed_element(j27.at("x").text().parse::<Identifier>(), move |h25| { log("call", j27.int_or("id", 0), 1); h25.remove() }) }).remove() } }) } }) } }))
}

fn program_122(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_class(leak(p2.arr()[0].at("name").text())) } }))
}

fn program_123(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; Ok(template) } }).remove())
}

fn program_124(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(Box::new(given(p.arr()[0].at("c"))) as Box<dyn Stream>).apply_as_template({ let d1 = &p.arr()[1]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; empty().transform(move |h| h.append(Ok::<Template, StreamError>(make_template(d1.at("c").at("ev"), d1.at("c").bool_or("parsed", true))))) } }))
}

fn program_125(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_if_else(p.arr()[0].at("b").bool(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.remove() } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.append(Err::<Template, StreamError>(make_error(p6.arr()[0].at("c").at("err")).expect("error"))) } }))
}

fn program_126(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply({ let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1 } }).apply_as_boxed({ let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.prepend({ let j11 = p6.arr()[0].at("c"); let p10 = j11.at("p"); Template::with_transformed_element(leak(j11.at("x").text()), move |h9| { log("call", j11.int_or("id", 0), 1); h9 }) }).prepend(Data::from_unencoded_static_str(leak(p6.arr()[1].at("c").at("x").text()))) } }))
}

fn program_127(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(p.arr()[0].at("sel").at("x").text().parse::<select::Class>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).repeat_or_else(LogIter::of(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.prepend(Template::with_element(ident(p6.arr()[0].at("c").at("x")))) } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }))
}

fn program_128(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_if(p.arr()[0].at("b").bool(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.select_direct_once(p2.arr()[0].at("sel").at("x").text().parse::<select::Class>(), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5.remove_id().apply_as_boxed({ let (p10, d11) = (p6.arr()[1].at("p"), p6.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9 } }) } }).select_direct(p2.arr()[1].at("sel").at("x").text().parse::<select::Tag>(), { let (p14, d15) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); let mut k16 = 0i64; move |h13| { k16 += 1; let k16 = k16; log("call", d15, k16); h13 } }) } }))
}

fn program_129(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(p.arr()[0].at("sel").at("x").text().parse::<select::Id>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_id(&ident(p2.arr()[0].at("name"))) } }).select(p.arr()[1].at("sel").at("x").text().parse::<select::Tag>(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }))
}

fn program_130(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; { let p3 = d1.at("p"); template.transform(move |h2| h2.append(Data::from_unencoded_str(p3.arr()[0].at("c").at("x").text()))) } } }))
}

fn program_131(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_with_option(option(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.select_direct_once(p2.arr()[0].at("sel").at("x").text().parse::<select::Tag>(), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).remove().append(Box::new(given(p2.arr()[2].at("c"))) as Box<dyn Stream>) } }, { let (p10, d11) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }))
}

fn program_132(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(p.arr()[0].at("sel").at("x").text().parse::<select::Class>(), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).apply_as_boxed({ let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.replace(Ok::<Template, StreamError>(make_template(p6.arr()[0].at("c").at("ev"), p6.arr()[0].at("c").bool_or("parsed", true)))).apply({ let (p10, d11) = (p6.arr()[1].at("p"), p6.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9 } }) } }))
}

fn program_133(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(Value::from_unencoded_str(p.arr()[0].at("c").at("x").text())).select(classes(p.arr()[1].at("sel").at("xs")), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.apply_if(p2.arr()[0].at("b").bool(), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.append_contents(k4) } }) } }))
}

fn program_134(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).remove())
}

fn program_135(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(Ok::<_, StreamError>(Data::from(Value::from_unencoded_str(p.arr()[0].at("c").at("i").at("x").text())))).append(Ok::<Template, IdentifierError>(make_template(p.arr()[1].at("c").at("ev"), p.arr()[1].at("c").bool_or("parsed", true)))))
}

fn program_136(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply({ let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.replace({ let j7 = p2.arr()[0].at("c"); let p6 = j7.at("p"); Template::with_transformed_element(leak(j7.at("x").text()), move |h5| { log("call", j7.int_or("id", 0), 1); h5.prepend_contents(Template::from_str(&p6.arr()[0].at("c").at("x").text(), options(p6.arr()[0].at("c").at("maxd").int(), p6.arr()[0].at("c").at("maxl").int()))) }) }).replace(Box::new(given(p2.arr()[1].at("c")))) } }))
}

fn program_137(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(Rc::new(RefCell::new(given(p.arr()[0].at("c"))))).prepend(Data::from_unencoded_str(p.arr()[1].at("c").at("x").text())))
}

fn program_138(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; { let p3 = d1.at("p"); template.transform(move |h2| h2.remove()) } } }))
}

fn program_139(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.append(Data::from_unencoded_static_str(leak(p.arr()[0].at("c").at("x").text()))).select_direct(leak(p.arr()[1].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(Value::from_unencoded_static_str(leak(p2.arr()[0].at("c").at("x").text()))) } }))
}

fn program_140(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).select(leak(p.arr()[1].at("sel").at("x").text()), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }))
}

fn program_141(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).append(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_142(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).prepend(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_143(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).replace(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_144(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).repeat(LogIter::of(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }))
}

fn program_145(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).apply({ let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }))
}

fn program_146(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).apply_as_boxed({ let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }))
}

fn program_147(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).apply_if(p.arr()[1].at("b").bool(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.remove() } }))
}

fn program_148(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).apply_if_else(p.arr()[1].at("b").bool(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9| { log("else", d11, 0); h9.remove() } }))
}

fn program_149(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).apply_with_option(option(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.append(v8) } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }))
}

fn program_150(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).apply_with_result(result(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("else", d11, v12); h9.prepend(v12) } }))
}

fn program_151(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }).apply_as_template({ let d5 = &p.arr()[1]; move |template: Template| { log("tpl", d5.int_or("id", 0), 0); let _ = &template; { let p7 = d5.at("p"); template.transform(move |h6| h6) } } }))
}

fn program_152(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove() } }).select(leak(p.arr()[1].at("sel").at("x").text()), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }))
}

fn program_153(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove() } }).append(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_154(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove() } }).prepend(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_155(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove() } }).replace(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_156(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove() } }).repeat(LogIter::of(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }))
}

fn program_157(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove() } }).apply({ let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }))
}

fn program_158(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove() } }).apply_as_boxed({ let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }))
}

fn program_159(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove() } }).apply_if(p.arr()[1].at("b").bool(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.remove() } }))
}

fn program_160(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove() } }).apply_if_else(p.arr()[1].at("b").bool(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9| { log("else", d11, 0); h9.remove() } }))
}

fn program_161(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove() } }).apply_with_option(option(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.append(v8) } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }))
}

fn program_162(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove() } }).apply_with_result(result(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("else", d11, v12); h9.prepend(v12) } }))
}

fn program_163(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_direct(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove() } }).apply_as_template({ let d5 = &p.arr()[1]; move |template: Template| { log("tpl", d5.int_or("id", 0), 0); let _ = &template; { let p7 = d5.at("p"); template.transform(move |h6| h6) } } }))
}

fn program_164(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())) } }).select(leak(p.arr()[1].at("sel").at("x").text()), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }))
}

fn program_165(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())) } }).append(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_166(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())) } }).prepend(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_167(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())) } }).replace(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_168(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())) } }).repeat(LogIter::of(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }))
}

fn program_169(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())) } }).apply({ let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }))
}

fn program_170(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())) } }).apply_as_boxed({ let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }))
}

fn program_171(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())) } }).apply_if(p.arr()[1].at("b").bool(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.remove() } }))
}

fn program_172(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())) } }).apply_if_else(p.arr()[1].at("b").bool(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9| { log("else", d11, 0); h9.remove() } }))
}

fn program_173(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())) } }).apply_with_option(option(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.append(v8) } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }))
}

fn program_174(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())) } }).apply_with_result(result(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("else", d11, v12); h9.prepend(v12) } }))
}

fn program_175(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select_once(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())) } }).apply_as_template({ let d5 = &p.arr()[1]; move |template: Template| { log("tpl", d5.int_or("id", 0), 0); let _ = &template; { let p7 = d5.at("p"); template.transform(move |h6| h6) } } }))
}

fn program_176(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().select(leak(p.arr()[1].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }))
}

fn program_177(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().append(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_178(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().prepend(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_179(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().replace(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_180(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().repeat(LogIter::of(&p.arr()[1]), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }))
}

fn program_181(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().apply({ let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1| { log("call", d3, 0); h1 } }))
}

fn program_182(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().apply_as_boxed({ let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1| { log("call", d3, 0); h1 } }))
}

fn program_183(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().apply_if(p.arr()[1].at("b").bool(), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.remove() } }))
}

fn program_184(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().apply_if_else(p.arr()[1].at("b").bool(), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1| { log("call", d3, 0); h1 } }, { let (p6, d7) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }))
}

fn program_185(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().apply_with_option(option(&p.arr()[1]), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h5| { log("else", d7, 0); h5 } }))
}

fn program_186(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().apply_with_result(result(&p.arr()[1]), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }, { let (p6, d7) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("else", d7, v8); h5.prepend(v8) } }))
}

fn program_187(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.remove().apply_as_template({ let d1 = &p.arr()[1]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; { let p3 = d1.at("p"); template.transform(move |h2| h2) } } }))
}

fn program_188(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(leak(p.arr()[0].at("c").at("x").text())).select(leak(p.arr()[1].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }))
}

fn program_189(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(leak(p.arr()[0].at("c").at("x").text())).append(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_190(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(leak(p.arr()[0].at("c").at("x").text())).prepend(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_191(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(leak(p.arr()[0].at("c").at("x").text())).replace(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_192(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(leak(p.arr()[0].at("c").at("x").text())).repeat(LogIter::of(&p.arr()[1]), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }))
}

fn program_193(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(leak(p.arr()[0].at("c").at("x").text())).apply({ let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1| { log("call", d3, 0); h1 } }))
}

fn program_194(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(leak(p.arr()[0].at("c").at("x").text())).apply_as_boxed({ let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1| { log("call", d3, 0); h1 } }))
}

fn program_195(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(leak(p.arr()[0].at("c").at("x").text())).apply_if(p.arr()[1].at("b").bool(), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.remove() } }))
}

fn program_196(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(leak(p.arr()[0].at("c").at("x").text())).apply_if_else(p.arr()[1].at("b").bool(), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1| { log("call", d3, 0); h1 } }, { let (p6, d7) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }))
}

fn program_197(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(leak(p.arr()[0].at("c").at("x").text())).apply_with_option(option(&p.arr()[1]), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h5| { log("else", d7, 0); h5 } }))
}

fn program_198(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(leak(p.arr()[0].at("c").at("x").text())).apply_with_result(result(&p.arr()[1]), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }, { let (p6, d7) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("else", d7, v8); h5.prepend(v8) } }))
}

fn program_199(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.prepend(leak(p.arr()[0].at("c").at("x").text())).apply_as_template({ let d1 = &p.arr()[1]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; { let p3 = d1.at("p"); template.transform(move |h2| h2) } } }))
}

fn program_200(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(leak(p.arr()[0].at("c").at("x").text())).select(leak(p.arr()[1].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1 } }))
}

fn program_201(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(leak(p.arr()[0].at("c").at("x").text())).append(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_202(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(leak(p.arr()[0].at("c").at("x").text())).prepend(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_203(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(leak(p.arr()[0].at("c").at("x").text())).replace(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_204(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(leak(p.arr()[0].at("c").at("x").text())).repeat(LogIter::of(&p.arr()[1]), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }))
}

fn program_205(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(leak(p.arr()[0].at("c").at("x").text())).apply({ let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1| { log("call", d3, 0); h1 } }))
}

fn program_206(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(leak(p.arr()[0].at("c").at("x").text())).apply_as_boxed({ let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1| { log("call", d3, 0); h1 } }))
}

fn program_207(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(leak(p.arr()[0].at("c").at("x").text())).apply_if(p.arr()[1].at("b").bool(), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1| { log("call", d3, 0); h1.remove() } }))
}

fn program_208(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(leak(p.arr()[0].at("c").at("x").text())).apply_if_else(p.arr()[1].at("b").bool(), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1| { log("call", d3, 0); h1 } }, { let (p6, d7) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }))
}

fn program_209(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(leak(p.arr()[0].at("c").at("x").text())).apply_with_option(option(&p.arr()[1]), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h5| { log("else", d7, 0); h5 } }))
}

fn program_210(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(leak(p.arr()[0].at("c").at("x").text())).apply_with_result(result(&p.arr()[1]), { let (p2, d3) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }, { let (p6, d7) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("else", d7, v8); h5.prepend(v8) } }))
}

fn program_211(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.replace(leak(p.arr()[0].at("c").at("x").text())).apply_as_template({ let d1 = &p.arr()[1]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; { let p3 = d1.at("p"); template.transform(move |h2| h2) } } }))
}

fn program_212(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }).select(leak(p.arr()[1].at("sel").at("x").text()), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }))
}

fn program_213(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }).append(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_214(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }).prepend(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_215(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }).replace(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_216(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }).repeat(LogIter::of(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }))
}

fn program_217(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }).apply({ let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }))
}

fn program_218(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }).apply_as_boxed({ let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }))
}

fn program_219(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }).apply_if(p.arr()[1].at("b").bool(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.remove() } }))
}

fn program_220(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }).apply_if_else(p.arr()[1].at("b").bool(), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9| { log("else", d11, 0); h9.remove() } }))
}

fn program_221(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }).apply_with_option(option(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5.append(v8) } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9| { log("else", d11, 0); h9 } }))
}

fn program_222(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }).apply_with_result(result(&p.arr()[1]), { let (p6, d7) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }, { let (p10, d11) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("else", d11, v12); h9.prepend(v12) } }))
}

fn program_223(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1 } }).apply_as_template({ let d5 = &p.arr()[1]; move |template: Template| { log("tpl", d5.int_or("id", 0), 0); let _ = &template; { let p7 = d5.at("p"); template.transform(move |h6| h6) } } }))
}

fn program_224(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }).select(leak(p.arr()[1].at("sel").at("x").text()), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k12 = 0i64; move |h9| { k12 += 1; let k12 = k12; log("call", d11, k12); h9 } }))
}

fn program_225(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }).append(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_226(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }).prepend(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_227(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }).replace(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_228(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }).repeat(LogIter::of(&p.arr()[1]), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9 } }))
}

fn program_229(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }).apply({ let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9 } }))
}

fn program_230(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }).apply_as_boxed({ let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9 } }))
}

fn program_231(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }).apply_if(p.arr()[1].at("b").bool(), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9.remove() } }))
}

fn program_232(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }).apply_if_else(p.arr()[1].at("b").bool(), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9 } }, { let (p14, d15) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h13| { log("else", d15, 0); h13.remove() } }))
}

fn program_233(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }).apply_with_option(option(&p.arr()[1]), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9.append(v12) } }, { let (p14, d15) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h13| { log("else", d15, 0); h13 } }))
}

fn program_234(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }).apply_with_result(result(&p.arr()[1]), { let (p10, d11) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9 } }, { let (p14, d15) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h13, v16: i64| { log("else", d15, v16); h13.prepend(v16) } }))
}

fn program_235(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.repeat_or_else(LogIter::of(&p.arr()[0]), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); move |h1, v4: i64| { log("call", d3, v4); h1.append(v4) } }, { let (p6, d7) = (p.arr()[0].at("q"), p.arr()[0].int_or("id", 0)); move |h5| { log("else", d7, 0); h5.remove() } }).apply_as_template({ let d9 = &p.arr()[1]; move |template: Template| { log("tpl", d9.int_or("id", 0), 0); let _ = &template; { let p11 = d9.at("p"); template.transform(move |h10| h10) } } }))
}

fn program_236(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; Ok(template) } }).select(leak(p.arr()[1].at("sel").at("x").text()), { let (p3, d4) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); let mut k5 = 0i64; move |h2| { k5 += 1; let k5 = k5; log("call", d4, k5); h2 } }))
}

fn program_237(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; Ok(template) } }).append(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_238(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; Ok(template) } }).prepend(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_239(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; Ok(template) } }).replace(leak(p.arr()[1].at("c").at("x").text())))
}

fn program_240(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; Ok(template) } }).repeat(LogIter::of(&p.arr()[1]), { let (p3, d4) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h2, v5: i64| { log("call", d4, v5); h2 } }))
}

fn program_241(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; Ok(template) } }).apply({ let (p3, d4) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h2| { log("call", d4, 0); h2 } }))
}

fn program_242(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; Ok(template) } }).apply_as_boxed({ let (p3, d4) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h2| { log("call", d4, 0); h2 } }))
}

fn program_243(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; Ok(template) } }).apply_if(p.arr()[1].at("b").bool(), { let (p3, d4) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h2| { log("call", d4, 0); h2.remove() } }))
}

fn program_244(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; Ok(template) } }).apply_if_else(p.arr()[1].at("b").bool(), { let (p3, d4) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h2| { log("call", d4, 0); h2 } }, { let (p7, d8) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h6| { log("else", d8, 0); h6.remove() } }))
}

fn program_245(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; Ok(template) } }).apply_with_option(option(&p.arr()[1]), { let (p3, d4) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h2, v5: i64| { log("call", d4, v5); h2.append(v5) } }, { let (p7, d8) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h6| { log("else", d8, 0); h6 } }))
}

fn program_246(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; Ok(template) } }).apply_with_result(result(&p.arr()[1]), { let (p3, d4) = (p.arr()[1].at("p"), p.arr()[1].int_or("id", 0)); move |h2, v5: i64| { log("call", d4, v5); h2 } }, { let (p7, d8) = (p.arr()[1].at("q"), p.arr()[1].int_or("id", 0)); move |h6, v9: i64| { log("else", d8, v9); h6.prepend(v9) } }))
}

fn program_247(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.apply_as_template({ let d1 = &p.arr()[0]; move |template: Template| { log("tpl", d1.int_or("id", 0), 0); let _ = &template; Ok(template) } }).apply_as_template({ let d2 = &p.arr()[1]; move |template: Template| { log("tpl", d2.int_or("id", 0), 0); let _ = &template; { let p4 = d2.at("p"); template.transform(move |h3| h3) } } }))
}

fn program_248(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_attribute_with_value(leak(p2.arr()[0].at("name").text()), leak(p2.arr()[0].at("val").at("x").text())).set_attribute_with_value(leak(p2.arr()[1].at("name").text()), leak(p2.arr()[1].at("val").at("x").text())) } }))
}

fn program_249(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_attribute_with_value(leak(p2.arr()[0].at("name").text()), leak(p2.arr()[0].at("val").at("x").text())).remove_contents() } }))
}

fn program_250(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_attribute_with_value(leak(p2.arr()[0].at("name").text()), leak(p2.arr()[0].at("val").at("x").text())).prepend_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_251(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_attribute_with_value(leak(p2.arr()[0].at("name").text()), leak(p2.arr()[0].at("val").at("x").text())).replace_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_252(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_attribute_with_value(leak(p2.arr()[0].at("name").text()), leak(p2.arr()[0].at("val").at("x").text())).repeat_contents(LogIter::of(&p2.arr()[1]), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }) } }))
}

fn program_253(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_attribute_with_value(leak(p2.arr()[0].at("name").text()), leak(p2.arr()[0].at("val").at("x").text())).repeat(LogIter::of(&p2.arr()[1]), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }) } }))
}

fn program_254(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_attribute_with_value(leak(p2.arr()[0].at("name").text()), leak(p2.arr()[0].at("val").at("x").text())).subselect_contents({ let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.append(leak(p6.arr()[0].at("c").at("x").text())) } }) } }))
}

fn program_255(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_attribute_with_value(leak(p2.arr()[0].at("name").text()), leak(p2.arr()[0].at("val").at("x").text())).remove() } }))
}

fn program_256(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_attribute_with_value(leak(p2.arr()[0].at("name").text()), leak(p2.arr()[0].at("val").at("x").text())).append(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_257(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_attribute_with_value(leak(p2.arr()[0].at("name").text()), leak(p2.arr()[0].at("val").at("x").text())).apply_if(p2.arr()[1].at("b").bool(), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }) } }))
}

fn program_258(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_attribute_with_value(leak(p2.arr()[0].at("name").text()), leak(p2.arr()[0].at("val").at("x").text())).apply_as_boxed_element({ let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }) } }))
}

fn program_259(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.set_attribute_with_value(leak(p2.arr()[0].at("name").text()), leak(p2.arr()[0].at("val").at("x").text())).remove_attribute(leak(p2.arr()[1].at("name").text())) } }))
}

fn program_260(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_contents().set_attribute_with_value(leak(p2.arr()[1].at("name").text()), leak(p2.arr()[1].at("val").at("x").text())) } }))
}

fn program_261(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_contents().remove_contents() } }))
}

fn program_262(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_contents().prepend_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_263(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_contents().replace_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_264(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_contents().repeat_contents(LogIter::of(&p2.arr()[1]), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }) } }))
}

fn program_265(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_contents().repeat(LogIter::of(&p2.arr()[1]), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }) } }))
}

fn program_266(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_contents().subselect_contents({ let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.append(leak(p6.arr()[0].at("c").at("x").text())) } }) } }))
}

fn program_267(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_contents().remove() } }))
}

fn program_268(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_contents().append(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_269(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_contents().apply_if(p2.arr()[1].at("b").bool(), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }) } }))
}

fn program_270(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_contents().apply_as_boxed_element({ let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }) } }))
}

fn program_271(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.remove_contents().remove_attribute(leak(p2.arr()[1].at("name").text())) } }))
}

fn program_272(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(leak(p2.arr()[0].at("c").at("x").text())).set_attribute_with_value(leak(p2.arr()[1].at("name").text()), leak(p2.arr()[1].at("val").at("x").text())) } }))
}

fn program_273(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(leak(p2.arr()[0].at("c").at("x").text())).remove_contents() } }))
}

fn program_274(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(leak(p2.arr()[0].at("c").at("x").text())).prepend_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_275(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(leak(p2.arr()[0].at("c").at("x").text())).replace_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_276(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(leak(p2.arr()[0].at("c").at("x").text())).repeat_contents(LogIter::of(&p2.arr()[1]), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }) } }))
}

fn program_277(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(leak(p2.arr()[0].at("c").at("x").text())).repeat(LogIter::of(&p2.arr()[1]), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }) } }))
}

fn program_278(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(leak(p2.arr()[0].at("c").at("x").text())).subselect_contents({ let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.append(leak(p6.arr()[0].at("c").at("x").text())) } }) } }))
}

fn program_279(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(leak(p2.arr()[0].at("c").at("x").text())).remove() } }))
}

fn program_280(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(leak(p2.arr()[0].at("c").at("x").text())).append(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_281(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(leak(p2.arr()[0].at("c").at("x").text())).apply_if(p2.arr()[1].at("b").bool(), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }) } }))
}

fn program_282(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(leak(p2.arr()[0].at("c").at("x").text())).apply_as_boxed_element({ let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }) } }))
}

fn program_283(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.append_contents(leak(p2.arr()[0].at("c").at("x").text())).remove_attribute(leak(p2.arr()[1].at("name").text())) } }))
}

fn program_284(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())).set_attribute_with_value(leak(p2.arr()[1].at("name").text()), leak(p2.arr()[1].at("val").at("x").text())) } }))
}

fn program_285(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())).remove_contents() } }))
}

fn program_286(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())).prepend_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_287(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())).replace_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_288(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())).repeat_contents(LogIter::of(&p2.arr()[1]), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }) } }))
}

fn program_289(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())).repeat(LogIter::of(&p2.arr()[1]), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }) } }))
}

fn program_290(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())).subselect_contents({ let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.append(leak(p6.arr()[0].at("c").at("x").text())) } }) } }))
}

fn program_291(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())).remove() } }))
}

fn program_292(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())).append(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_293(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())).apply_if(p2.arr()[1].at("b").bool(), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }) } }))
}

fn program_294(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())).apply_as_boxed_element({ let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }) } }))
}

fn program_295(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.replace_contents(leak(p2.arr()[0].at("c").at("x").text())).remove_attribute(leak(p2.arr()[1].at("name").text())) } }))
}

fn program_296(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }).set_attribute_with_value(leak(p2.arr()[1].at("name").text()), leak(p2.arr()[1].at("val").at("x").text())) } }))
}

fn program_297(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }).remove_contents() } }))
}

fn program_298(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }).prepend_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_299(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }).replace_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_300(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }).repeat_contents(LogIter::of(&p2.arr()[1]), { let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9 } }) } }))
}

fn program_301(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }).repeat(LogIter::of(&p2.arr()[1]), { let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9 } }) } }))
}

fn program_302(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }).subselect_contents({ let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9.append(leak(p10.arr()[0].at("c").at("x").text())) } }) } }))
}

fn program_303(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }).remove() } }))
}

fn program_304(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }).append(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_305(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }).apply_if(p2.arr()[1].at("b").bool(), { let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9 } }) } }))
}

fn program_306(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }).apply_as_boxed_element({ let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9 } }) } }))
}

fn program_307(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }).remove_attribute(leak(p2.arr()[1].at("name").text())) } }))
}

fn program_308(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents_or_else(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }, { let (p10, d11) = (p2.arr()[0].at("q"), p2.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9.remove_contents() } }).repeat(LogIter::of(&p2.arr()[1]), { let (p14, d15) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h13, v16: i64| { log("call", d15, v16); h13 } }) } }))
}

fn program_309(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents_or_else(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }, { let (p10, d11) = (p2.arr()[0].at("q"), p2.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9.remove_contents() } }).remove() } }))
}

fn program_310(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents_or_else(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }, { let (p10, d11) = (p2.arr()[0].at("q"), p2.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9.remove_contents() } }).append(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_311(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.repeat_contents_or_else(LogIter::of(&p2.arr()[0]), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }, { let (p10, d11) = (p2.arr()[0].at("q"), p2.arr()[0].int_or("id", 0)); move |h9| { log("else", d11, 0); h9.remove_contents() } }).apply_if(p2.arr()[1].at("b").bool(), { let (p14, d15) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h13| { log("call", d15, 0); h13 } }) } }))
}

fn program_312(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_contents({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }).set_attribute_with_value(leak(p2.arr()[1].at("name").text()), leak(p2.arr()[1].at("val").at("x").text())) } }))
}

fn program_313(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_contents({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }).remove_contents() } }))
}

fn program_314(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_contents({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }).prepend_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_315(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_contents({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }).replace_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_316(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_contents({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }).repeat_contents(LogIter::of(&p2.arr()[1]), { let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9 } }) } }))
}

fn program_317(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_contents({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }).repeat(LogIter::of(&p2.arr()[1]), { let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9 } }) } }))
}

fn program_318(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_contents({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }).subselect_contents({ let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9.append(leak(p10.arr()[0].at("c").at("x").text())) } }) } }))
}

fn program_319(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_contents({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }).remove() } }))
}

fn program_320(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_contents({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }).append(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_321(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_contents({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }).apply_if(p2.arr()[1].at("b").bool(), { let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9 } }) } }))
}

fn program_322(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_contents({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }).apply_as_boxed_element({ let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9 } }) } }))
}

fn program_323(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect_contents({ let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }).remove_attribute(leak(p2.arr()[1].at("name").text())) } }))
}

fn program_324(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_class(leak(p2.arr()[0].at("name").text())).set_attribute_with_value(leak(p2.arr()[1].at("name").text()), leak(p2.arr()[1].at("val").at("x").text())) } }))
}

fn program_325(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_class(leak(p2.arr()[0].at("name").text())).remove_contents() } }))
}

fn program_326(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_class(leak(p2.arr()[0].at("name").text())).prepend_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_327(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_class(leak(p2.arr()[0].at("name").text())).replace_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_328(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_class(leak(p2.arr()[0].at("name").text())).repeat_contents(LogIter::of(&p2.arr()[1]), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }) } }))
}

fn program_329(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_class(leak(p2.arr()[0].at("name").text())).repeat(LogIter::of(&p2.arr()[1]), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5, v8: i64| { log("call", d7, v8); h5 } }) } }))
}

fn program_330(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_class(leak(p2.arr()[0].at("name").text())).subselect_contents({ let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5.append(leak(p6.arr()[0].at("c").at("x").text())) } }) } }))
}

fn program_331(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_class(leak(p2.arr()[0].at("name").text())).remove() } }))
}

fn program_332(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_class(leak(p2.arr()[0].at("name").text())).append(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_333(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_class(leak(p2.arr()[0].at("name").text())).apply_if(p2.arr()[1].at("b").bool(), { let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }) } }))
}

fn program_334(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_class(leak(p2.arr()[0].at("name").text())).apply_as_boxed_element({ let (p6, d7) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h5| { log("call", d7, 0); h5 } }) } }))
}

fn program_335(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.add_class(leak(p2.arr()[0].at("name").text())).remove_attribute(leak(p2.arr()[1].at("name").text())) } }))
}

fn program_336(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).set_attribute_with_value(leak(p2.arr()[1].at("name").text()), leak(p2.arr()[1].at("val").at("x").text())) } }))
}

fn program_337(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).remove_contents() } }))
}

fn program_338(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).prepend_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_339(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).replace_contents(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_340(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).repeat_contents(LogIter::of(&p2.arr()[1]), { let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9 } }) } }))
}

fn program_341(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).repeat(LogIter::of(&p2.arr()[1]), { let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9, v12: i64| { log("call", d11, v12); h9 } }) } }))
}

fn program_342(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).subselect_contents({ let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9.append(leak(p10.arr()[0].at("c").at("x").text())) } }) } }))
}

fn program_343(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).remove() } }))
}

fn program_344(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).append(leak(p2.arr()[1].at("c").at("x").text())) } }))
}

fn program_345(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).apply_if(p2.arr()[1].at("b").bool(), { let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9 } }) } }))
}

fn program_346(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).apply_as_boxed_element({ let (p10, d11) = (p2.arr()[1].at("p"), p2.arr()[1].int_or("id", 0)); move |h9| { log("call", d11, 0); h9 } }) } }))
}

fn program_347(template: &Template, p: &'static J) -> Outcome {
    template.transform(move |h| h.select(leak(p.arr()[0].at("sel").at("x").text()), { let (p2, d3) = (p.arr()[0].at("p"), p.arr()[0].int_or("id", 0)); let mut k4 = 0i64; move |h1| { k4 += 1; let k4 = k4; log("call", d3, k4); h1.subselect(leak(p2.arr()[0].at("sel").at("x").text()), { let (p6, d7) = (p2.arr()[0].at("p"), p2.arr()[0].int_or("id", 0)); let mut k8 = 0i64; move |h5| { k8 += 1; let k8 = k8; log("call", d7, k8); h5 } }).remove_attribute(leak(p2.arr()[1].at("name").text())) } }))
}

const BANK: &[fn(&Template, &'static J) -> Outcome] = &[
    program_0,
    program_1,
    program_2,
    program_3,
    program_4,
    program_5,
    program_6,
    program_7,
    program_8,
    program_9,
    program_10,
    program_11,
    program_12,
    program_13,
    program_14,
    program_15,
    program_16,
    program_17,
    program_18,
    program_19,
    program_20,
    program_21,
    program_22,
    program_23,
    program_24,
    program_25,
    program_26,
    program_27,
    program_28,
    program_29,
    program_30,
    program_31,
    program_32,
    program_33,
    program_34,
    program_35,
    program_36,
    program_37,
    program_38,
    program_39,
    program_40,
    program_41,
    program_42,
    program_43,
    program_44,
    program_45,
    program_46,
    program_47,
    program_48,
    program_49,
    program_50,
    program_51,
    program_52,
    program_53,
    program_54,
    program_55,
    program_56,
    program_57,
    program_58,
    program_59,
    program_60,
    program_61,
    program_62,
    program_63,
    program_64,
    program_65,
    program_66,
    program_67,
    program_68,
    program_69,
    program_70,
    program_71,
    program_72,
    program_73,
    program_74,
    program_75,
    program_76,
    program_77,
    program_78,
    program_79,
    program_80,
    program_81,
    program_82,
    program_83,
    program_84,
    program_85,
    program_86,
    program_87,
    program_88,
    program_89,
    program_90,
    program_91,
    program_92,
    program_93,
    program_94,
    program_95,
    program_96,
    program_97,
    program_98,
    program_99,
    program_100,
    program_101,
    program_102,
    program_103,
    program_104,
    program_105,
    program_106,
    program_107,
    program_108,
    program_109,
    program_110,
    program_111,
    program_112,
    program_113,
    program_114,
    program_115,
    program_116,
    program_117,
    program_118,
    program_119,
    program_120,
    program_121,
    program_122,
    program_123,
    program_124,
    program_125,
    program_126,
    program_127,
    program_128,
    program_129,
    program_130,
    program_131,
    program_132,
    program_133,
    program_134,
    program_135,
    program_136,
    program_137,
    program_138,
    program_139,
    program_140,
    program_141,
    program_142,
    program_143,
    program_144,
    program_145,
    program_146,
    program_147,
    program_148,
    program_149,
    program_150,
    program_151,
    program_152,
    program_153,
    program_154,
    program_155,
    program_156,
    program_157,
    program_158,
    program_159,
    program_160,
    program_161,
    program_162,
    program_163,
    program_164,
    program_165,
    program_166,
    program_167,
    program_168,
    program_169,
    program_170,
    program_171,
    program_172,
    program_173,
    program_174,
    program_175,
    program_176,
    program_177,
    program_178,
    program_179,
    program_180,
    program_181,
    program_182,
    program_183,
    program_184,
    program_185,
    program_186,
    program_187,
    program_188,
    program_189,
    program_190,
    program_191,
    program_192,
    program_193,
    program_194,
    program_195,
    program_196,
    program_197,
    program_198,
    program_199,
    program_200,
    program_201,
    program_202,
    program_203,
    program_204,
    program_205,
    program_206,
    program_207,
    program_208,
    program_209,
    program_210,
    program_211,
    program_212,
    program_213,
    program_214,
    program_215,
    program_216,
    program_217,
    program_218,
    program_219,
    program_220,
    program_221,
    program_222,
    program_223,
    program_224,
    program_225,
    program_226,
    program_227,
    program_228,
    program_229,
    program_230,
    program_231,
    program_232,
    program_233,
    program_234,
    program_235,
    program_236,
    program_237,
    program_238,
    program_239,
    program_240,
    program_241,
    program_242,
    program_243,
    program_244,
    program_245,
    program_246,
    program_247,
    program_248,
    program_249,
    program_250,
    program_251,
    program_252,
    program_253,
    program_254,
    program_255,
    program_256,
    program_257,
    program_258,
    program_259,
    program_260,
    program_261,
    program_262,
    program_263,
    program_264,
    program_265,
    program_266,
    program_267,
    program_268,
    program_269,
    program_270,
    program_271,
    program_272,
    program_273,
    program_274,
    program_275,
    program_276,
    program_277,
    program_278,
    program_279,
    program_280,
    program_281,
    program_282,
    program_283,
    program_284,
    program_285,
    program_286,
    program_287,
    program_288,
    program_289,
    program_290,
    program_291,
    program_292,
    program_293,
    program_294,
    program_295,
    program_296,
    program_297,
    program_298,
    program_299,
    program_300,
    program_301,
    program_302,
    program_303,
    program_304,
    program_305,
    program_306,
    program_307,
    program_308,
    program_309,
    program_310,
    program_311,
    program_312,
    program_313,
    program_314,
    program_315,
    program_316,
    program_317,
    program_318,
    program_319,
    program_320,
    program_321,
    program_322,
    program_323,
    program_324,
    program_325,
    program_326,
    program_327,
    program_328,
    program_329,
    program_330,
    program_331,
    program_332,
    program_333,
    program_334,
    program_335,
    program_336,
    program_337,
    program_338,
    program_339,
    program_340,
    program_341,
    program_342,
    program_343,
    program_344,
    program_345,
    program_346,
    program_347,
];
