#!/usr/bin/env python3
"""Writes harness/src/bank.rs and tools/bank.json: programs written in Rust without boxing.

The interpreter of the harness boxes the stream after every operation.  The programs here are compositions
of the library's own stream types, as users write them.  Each shape fixes the operations and the kinds of
selectors and content; texts, items and flags are taken from the case.  Deterministic: run it again only to
change the bank (both files are committed).
"""
import copy
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
import props

HERE = os.path.dirname(os.path.abspath(__file__))


class Writer:
    """Rust text of a program."""

    def __init__(self):
        self.n = 0

    def var(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def name(self, j, nk):
        """Expression for a name."""
        t = "%s.text()" % j
        return {"static": "leak(%s)" % t, "res": "%s.parse::<Identifier>()" % t,
                "resstatic": "Identifier::from_static_str(leak(%s))" % t,
                "own": "ident(%s)" % j, "ref": "&ident(%s)" % j}[nk]

    def value(self, v, j, env):
        c = v["c"]
        t = "%s.at(\"x\").text()" % j
        if c == "env":
            return env[-1 - v["d"]]
        if c == "int":
            return "%s.parse::<%s>().expect(\"int\")" % (t, v["ty"])
        return {"str": "leak(%s)" % t, "value": "Value::from_unencoded_str(%s)" % t,
                "values": "Value::from_unencoded_static_str(leak(%s))" % t,
                "valueref": "&Value::from_unencoded_str(&%s)" % t}[c]

    def content(self, c, j, env):
        k = c["c"]
        t = "%s.at(\"x\").text()" % j
        if k in ("str", "value", "values", "valueref", "int", "env"):
            return self.value(c, j, env)
        if k == "data":
            return "Data::from_unencoded_str(%s)" % t
        if k == "datas":
            return "Data::from_unencoded_static_str(leak(%s))" % t
        if k == "dataref":
            return "&Data::from_unencoded_str(&%s)" % t
        if k == "datafrom":
            return "Data::from(Value::from_unencoded_str(%s))" % t
        if k == "tpl":
            m = "make_template(%s.at(\"ev\"), %s.bool_or(\"parsed\", true))" % (j, j)
            return {"own": m, "ref": "&" + m, "rc": "Rc::new(%s)" % m, "ok": "Ok::<Template, StreamError>(%s)" % m,
                    "okid": "Ok::<Template, IdentifierError>(%s)" % m}[c["w"]]
        if k == "elem":
            return "Template::with_element(%s)" % self.name("%s.at(\"x\")" % j, c.get("nk", "static"))
        if k == "parse":
            return "Template::from_str(&%s, options(%s.at(\"maxd\").int(), %s.at(\"maxl\").int()))" % (t, j, j)
        if k == "ok":
            return "Ok::<_, StreamError>(%s)" % self.content(c["i"], "%s.at(\"i\")" % j, env)
        if k == "err":
            if c["err"]["e"] == "Identifier":
                return "Err::<Template, IdentifierError>(id_error(%s.at(\"err\").at(\"id\")))" % j
            return "Err::<Template, StreamError>(make_error(%s.at(\"err\")).expect(\"error\"))" % j
        if k == "stream":
            how = c.get("sw", "plain")
            g = "given(%s)" % j
            return {"plain": g, "box": "Box::new(%s)" % g, "rc": "Rc::new(RefCell::new(%s))" % g,
                    "dyn": "Box::new(%s) as Box<dyn Stream>" % g}[how]
        if k == "telem":
            h, q, id_ = self.var("h"), self.var("p"), self.var("j")
            inner = self.prog(c["p"], h, q, env + ["1i64"])
            return "{ let %s = %s; let %s = %s.at(\"p\"); Template::with_transformed_element(%s, move |%s| { " \
                   "log(\"call\", %s.int_or(\"id\", 0), 1); %s }) }" % (
                       id_, j, q, id_, self.name("%s.at(\"x\")" % id_, c.get("nk", "static")), h, id_, inner)
        raise ValueError(k)

    def selector(self, s, j):
        t = "%s.at(\"x\").text()" % j
        k = s["s"]
        if k == "static":
            return "leak(%s)" % t
        if k == "tag":
            return "%s.parse::<select::Tag>()" % t
        if k == "id":
            return "%s.parse::<select::Id>()" % t
        if k == "class":
            return "%s.parse::<select::Class>()" % t
        if k == "classes":
            return "classes(%s.at(\"xs\"))" % j
        if k == "custom":
            return "kinds(%s.at(\"ks\"))" % j
        raise ValueError(k)

    def prog(self, prog, h, j, env):
        """`prog`, whose JSON is in variable j, applied to variable h."""
        e = h
        for i, o in enumerate(prog):
            e = self.op(o, e, "%s[%d]" % (j + ".arr()", i), env)
        return e

    def closure(self, o, field, j, env, args=0, log="call", once=True):
        """A closure which runs o[field]; args: number of values it gets besides the stream."""
        h, q, id_ = self.var("h"), self.var("p"), self.var("d")
        v = self.var("v")
        inner = self.prog(o[field], h, q, env + ([v] if args else []))
        return "{ let (%s, %s) = (%s.at(\"%s\"), %s.int_or(\"id\", 0)); move |%s%s| { log(\"%s\", %s, %s); %s } }" % (
            q, id_, j, field, j, h, (", %s: i64" % v) if args else "", log, id_, v if args else "0", inner)

    def op(self, o, e, j, env):
        k = o["o"]
        if k == "sel":
            h, q, id_, n = self.var("h"), self.var("p"), self.var("d"), self.var("k")
            inner = self.prog(o["p"], h, q, env + [n])
            method = ("sub" if o["sub"] else "") + "select" + ("_direct" if o["direct"] else "") + ("_once" if o["once"] else "")
            return "%s.%s(%s, { let (%s, %s) = (%s.at(\"p\"), %s.int_or(\"id\", 0)); let mut %s = 0i64; " \
                   "move |%s| { %s += 1; let %s = %s; log(\"call\", %s, %s); %s } })" % (
                       e, method, self.selector(o["sel"], "%s.at(\"sel\")" % j), q, id_, j, j, n, h, n, n, n, id_, n, inner)
        if k == "remove":
            return e + ".remove()"
        if k in ("prepend", "append", "replace"):
            return "%s.%s(%s)" % (e, k, self.content(o["c"], "%s.at(\"c\")" % j, env))
        if k == "removec":
            return e + ".remove_contents()"
        if k in ("prependc", "appendc", "replacec"):
            return "%s.%s_contents(%s)" % (e, k[:-1], self.content(o["c"], "%s.at(\"c\")" % j, env))
        if k == "subc":
            return "%s.subselect_contents(%s)" % (e, self.closure(o, "p", j, env))
        if k in ("repeat", "repeatc"):
            return "%s.%s(LogIter::of(&%s), %s)" % (e, {"repeat": "repeat", "repeatc": "repeat_contents"}[k], j,
                                                    self.closure(o, "p", j, env, 1))
        if k in ("repeatelse", "repeatcelse"):
            return "%s.%s(LogIter::of(&%s), %s, %s)" % (
                e, {"repeatelse": "repeat_or_else", "repeatcelse": "repeat_contents_or_else"}[k], j,
                self.closure(o, "p", j, env, 1), self.closure(o, "q", j, env, 0, "else"))
        if k == "apply":
            return "%s.apply(%s)" % (e, self.closure(o, "p", j, env))
        if k == "box":
            return "%s.apply_as_boxed(%s)" % (e, self.closure(o, "p", j, env))
        if k == "boxel":
            return "%s.apply_as_boxed_element(%s)" % (e, self.closure(o, "p", j, env))
        if k == "if":
            return "%s.apply_if(%s.at(\"b\").bool(), %s)" % (e, j, self.closure(o, "p", j, env))
        if k == "ifelse":
            return "%s.apply_if_else(%s.at(\"b\").bool(), %s, %s)" % (
                e, j, self.closure(o, "p", j, env), self.closure(o, "q", j, env, 0, "else"))
        if k == "opt":
            return "%s.apply_with_option(option(&%s), %s, %s)" % (
                e, j, self.closure(o, "p", j, env, 1), self.closure(o, "q", j, env, 0, "else"))
        if k == "res":
            return "%s.apply_with_result(result(&%s), %s, %s)" % (
                e, j, self.closure(o, "p", j, env, 1), self.closure(o, "q", j, env, 1, "else"))
        if k == "tpl":
            id_ = self.var("d")
            f = o["f"]
            if f == "id":
                body = "Ok(template)"
            elif f == "run":
                h, q = self.var("h"), self.var("p")
                body = "{ let %s = %s.at(\"p\"); template.transform(move |%s| %s) }" % (
                    q, id_, h, self.prog(o["p"], h, q, env))
            elif f == "const":
                body = "empty().transform(move |h| h.append(%s))" % self.content(o["c"], "%s.at(\"c\")" % id_, env)
            else:
                body = "Err(make_error(%s.at(\"err\")).expect(\"error\"))" % id_
            return "%s.apply_as_template({ let %s = &%s; move |template: Template| { log(\"tpl\", %s.int_or(\"id\", 0), 0); " \
                   "let _ = &template; %s } })" % (e, id_, j, id_, body)
        if k in gen.ATTR_OPS:
            return self.attr(o, e, j, env)
        raise ValueError(k)

    def attr(self, o, e, j, env):
        k = o["o"]
        if k == "rmid":
            return e + ".remove_id()"
        n = self.name("%s.at(\"name\")" % j, o["nk"])
        if k in ("rmattr", "addclass", "rmclass", "setid"):
            return "%s.%s(%s)" % (e, {"rmattr": "remove_attribute", "addclass": "add_class", "rmclass": "remove_class",
                                      "setid": "set_id"}[k], n)
        v = o["val"]
        if v["c"] == "none":
            if o.get("opt"):
                return "%s.%s(%s, None::<Value>)" % (e, {"addattr": "add_attribute", "setattr": "set_attribute"}[k], n)
            return "%s.%s(%s)" % (e, {"addattr": "add_empty_attribute", "setattr": "set_empty_attribute"}[k], n)
        x = self.value(v, "%s.at(\"val\")" % j, env)
        if k in ("addattr", "setattr"):
            base = {"addattr": "add_attribute", "setattr": "set_attribute"}[k]
            return "%s.%s(%s, Some(%s))" % (e, base, n, x) if o.get("opt") else "%s.%s_with_value(%s, %s)" % (e, base, n, x)
        if k == "replattr":
            return "%s.replace_attribute_value_if_exists(%s, %s)" % (e, n, x)
        return "%s.add_to_attribute(%s, %s, %s)" % (e, n, x, self.value(o["sep"], "%s.at(\"sep\")" % j, env))


HEAD = '''//! Programs composed of the library's own stream types.  Written by tools/mkbank.py.

use std::cell::RefCell;
use std::rc::Rc;

use html5_fuser::event::StreamError;
use html5_fuser::select;
use html5_fuser::text::{ Data, Identifier, IdentifierError, Value };
use html5_fuser::{ Stream, Template };

use crate::interp::*;
use crate::json::*;
use crate::observe::*;

type Outcome = Result<Template, StreamError>;

pub fn run(shape: i64, template: &Template, prog: &'static J) -> Outcome {
    match BANK.get(shape as usize) {
        Some(program) => program(template, prog),
        None => fail("unknown shape"),
    }
}

'''


def pairs():
    """Every operation directly behind every other one, on whole streams and on selected elements."""
    txt = lambda x: {"c": "str", "x": gen.cp(x)}
    sel = lambda p, **kw: dict({"o": "sel", "direct": False, "once": False, "sub": False, "sel": {"s": "static", "x": gen.cp("b")}, "p": p, "id": 1}, **kw)
    rep = lambda o, p, **kw: dict({"o": o, "items": [1, 2], "hint": 0, "p": p, "id": 2}, **kw)
    firsts = [sel([]), sel([{"o": "remove"}], direct=True), sel([{"o": "replacec", "c": txt("x")}], once=True), {"o": "remove"},
              {"o": "prepend", "c": txt("x")}, {"o": "replace", "c": txt("x")}, rep("repeat", []),
              rep("repeatelse", [{"o": "append", "c": {"c": "env", "d": 0}}], q=[{"o": "remove"}]), {"o": "tpl", "f": "id", "id": 0}]
    lasts = [sel([]), {"o": "append", "c": txt("y")}, {"o": "prepend", "c": txt("y")}, {"o": "replace", "c": txt("y")}, rep("repeat", []),
             {"o": "apply", "p": [], "id": 3}, {"o": "box", "p": [], "id": 3}, {"o": "if", "b": True, "p": [{"o": "remove"}], "id": 3},
             {"o": "ifelse", "b": True, "p": [], "q": [{"o": "remove"}], "id": 3},
             {"o": "opt", "b": True, "v": 1, "p": [{"o": "append", "c": {"c": "env", "d": 0}}], "q": [], "id": 3},
             {"o": "res", "b": True, "v": 1, "p": [], "q": [{"o": "prepend", "c": {"c": "env", "d": 0}}], "id": 3},
             {"o": "tpl", "f": "run", "p": [], "id": 3}]
    attr = {"o": "setattr", "name": gen.cp("t"), "nk": "static", "val": txt("v"), "opt": False}
    efirsts = [attr, {"o": "removec"}, {"o": "appendc", "c": txt("x")}, {"o": "replacec", "c": txt("x")},
               rep("repeatc", []), rep("repeatcelse", [], q=[{"o": "removec"}]), {"o": "subc", "p": [], "id": 4},
               {"o": "addclass", "name": gen.cp("k"), "nk": "static"}, sel([], sub=True)]
    elasts = [attr, {"o": "removec"}, {"o": "prependc", "c": txt("y")}, {"o": "replacec", "c": txt("y")}, rep("repeatc", []),
              rep("repeat", []), {"o": "subc", "p": [{"o": "append", "c": txt("z")}], "id": 5}, {"o": "remove"}, {"o": "append", "c": txt("z")},
              {"o": "if", "b": True, "p": [], "id": 3}, {"o": "boxel", "p": [], "id": 3}, {"o": "rmattr", "name": gen.cp("t"), "nk": "static"}]
    return [{"tag": "pair", "prog": copy.deepcopy([a, b])} for a in firsts for b in lasts] + \
           [{"tag": "pair", "prog": [sel(copy.deepcopy([a, b]))]} for a in efirsts for b in elasts
            if a["o"] != "repeatcelse" or b["o"] in ("remove", "append", "if", "repeat")]


def shapes():
    # The random shapes stay as they were once made.
    try:
        with open(os.path.join(HERE, "bank.json")) as f:
            old = [s for s in json.load(f) if s["tag"] != "pair"]
    except OSError:
        old = random_shapes()
    return old + pairs()


def random_shapes():
    rng = random.Random("bank")
    g = gen.G(rng)
    out = []
    profiles = [("select", props.SELECTING, 28), ("content", props.CONTENT, 26), ("repeat", props.REPEATING, 22),
                ("attr", props.ATTRIBUTES, 14), ("compose", props.COMPOSING, 26), ("any", {}, 24)]
    for tag, w, count in profiles:
        made = 0
        while made < count:
            g.next_id = 0
            prof = dict(w=w, depth=rng.choice([1, 2, 2, 3]), ops=rng.choice([1, 2, 2, 3]), log=1, streams=0.15)
            if rng.random() < 0.15:
                prof["errors"] = 0.3
            p, _ = g.prog(False, prof["depth"], 0, prof, 1, 2)
            size = len(json.dumps([o for o in p], default=str).split('"o":')) - 1
            if not 2 <= size <= 9:
                continue

            def trim(x):
                if isinstance(x, dict):
                    if x.get("c") == "stream":
                        x["sw"] = rng.choice(["plain", "box", "rc", "dyn"])
                    if "s" in x:
                        x.pop("w", None)
                    for v in x.values():
                        trim(v)
                elif isinstance(x, list):
                    for v in x:
                        trim(v)
            trim(p)
            out.append({"tag": tag, "prog": p})
            made += 1
    return out


def main():
    bank = shapes()
    text = HEAD
    for i, s in enumerate(bank):
        w = Writer()
        text += "fn program_%d(template: &Template, p: &'static J) -> Outcome {\n    template.transform(move |h| %s)\n}\n\n" % (
            i, w.prog(s["prog"], "h", "p", []))
    text += "const BANK: &[fn(&Template, &'static J) -> Outcome] = &[\n" + \
        "".join("    program_%d,\n" % i for i in range(len(bank))) + "];\n"
    with open(os.path.join(HERE, "..", "harness", "src", "bank.rs"), "w") as f:
        f.write(text)
    with open(os.path.join(HERE, "bank.json"), "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(s, separators=(",", ":")) for s in bank) + "\n]\n")


if __name__ == "__main__":
    main()
