"""What the check of each property explores: models, their bounds, random cases, and the aspects of an
observation that decide the property."""
import json

import gen

PARSE_INV = {
    "C01": ["Fixpoint"], "C02": ["StackInv", "Accepted", "Rejected", "VoidNeverOpen"],
    "C03": ["WithinLimit", "LimitExact", "LimitNeutral"],
    "C04": ["FirstFault", "Place", "Places2", "RealProblem"], "C05": ["ValidNames", "RealProblem"],
}


def parse(profile, size, inv, props=("Kept", "Progress"), **kw):
    return dict(module="MCParse", consts={"Profile": profile, "MaxFrags": size}, inv=list(inv), props=list(props), **kw)


def trans(profile, size, inv=("Agree",), props=(), **kw):
    return dict(module="MCTrans", consts={"Profile": profile, "Size": size}, inv=list(inv), props=list(props),
                **dict({"vary": vary}, **kw))


def text(profile, size, **kw):
    inv = {"ident": ["Rule", "Reason", "CaseOnly", "Symmetric"], "chars": ["Rule", "Reason", "CaseOnly", "Symmetric"],
           "case": ["CaseOnly", "Symmetric"]}.get(profile, ["Decodes", "Inert", "Piecewise", "Plain"])
    return dict(module="MCText", consts={"Profile": profile, "MaxLen": size}, inv=inv, **kw)


def selector(profile, size, **kw):
    inv = {"text": ["Accepted", "Blame"], "list": ["ListError"]}.get(profile, ["MatchLaw", "FormFree", "OnlyTags"])
    return dict(module="MCSelector", consts={"Profile": profile, "MaxLen": size}, inv=inv, **kw)


def store(profile, size, **kw):
    return dict(module="MCStore", consts={"Profile": profile, "MaxSteps": size},
                inv=["Equivalence", "NewIs", "EqualText", "AllNested"], props=["Immutable", "Grows"], **kw)


def reader(profile, size, **kw):
    return dict(module="MCReader", consts={"Profile": profile, "MaxChunks": size},
                inv=["Scalars", "DecodedIs", "PrefixIs", "ChunkFree", "LimitLaw"], props=["Ends"], **kw)


# ---------------------------------------------------------------- variations of exported behaviours
ELEMENT_WAYS = ["own", "ref", "rc", "ok", "okid"]


def vary(c, rng):
    """What the specification does not distinguish, chosen at random: how a selector, name or template is
    passed, whether the document was parsed or collected, how text is stored."""
    def walk(j):
        if isinstance(j, list):
            for i in j:
                walk(i)
        elif isinstance(j, dict):
            if "s" in j and "w" not in j and j["s"] in ("static", "tag", "id", "class", "classes") and rng.random() < 0.4:
                j["w"] = rng.choice(["plain", "ref", "rc", "into", "res"])
            if j.get("o") in gen.ATTR_OPS and "name" in j and "nk" not in j:
                j["nk"] = rng.choice(["static", "static", "res", "resstatic", "own", "ref"])
            if j.get("o") in ("addattr", "setattr") and "opt" not in j:
                j["opt"] = rng.random() < 0.4
            if "items" in j and "hint" not in j:
                j["hint"] = rng.randrange(9)
            if j.get("c") == "tpl" and rng.random() < 0.5:
                j["w"] = rng.choice(ELEMENT_WAYS)
                j["parsed"] = rng.random() < 0.7
            if j.get("c") == "str" and rng.random() < 0.2 and "val" not in j:
                j["c"] = "value"
            for v in j.values():
                walk(v)
    walk(c)
    if c.get("parsed") and rng.random() < 0.25:
        c["parsed"] = False
    return c


def limits(c, rng):
    """A parse case under several length limits."""
    n = len("".join(map(chr, c["x"])).encode())
    out = [c]
    for m in {n, n - 1, n + 1, 0, n // 2}:
        if m >= 0 and (m in (n, n - 1) or rng.random() < 0.1):
            out.append(dict(c, maxl=m))
    return out


def reparsed(c, rng):
    return dict(vary(c, rng), re=True)


def doubled(c, rng):
    return dict(vary(c, rng), twice=True)


# ---------------------------------------------------------------- random cases
def some(*choices):
    """Random cases: choices are (weight, function of G giving a case or list of cases)."""
    def make(g, n):
        out = []
        weights = [w for w, _ in choices]
        while len(out) < n:
            c = g.r.choices(choices, weights)[0][1](g)
            out += c if isinstance(c, list) else [c]
        return out
    return make


def t(**prof):
    return lambda g: g.trans_case(prof)


def bank(*tags, **kw):
    return lambda g: g.bank_case(tags, **kw)


def two_passes(g):
    """A chain at once and as two transformations."""
    g.next_id = 0
    prof = dict(depth=2, ops=2)
    one = g.prog(False, 2, 0, prof, 1)[0]
    two = g.prog(False, 2, 0, prof, 1)[0]
    src = g.source(g.parsed_doc(1, 7))
    return {"k": "hist", "steps": [{"s": "parse", "x": gen.cp(src)}, {"s": "trans", "i": 0, "prog": one + two},
                                   {"s": "trans", "i": 0, "prog": one}, {"s": "trans", "i": 2, "prog": two}]}


def identities(g):
    """Selections whose elements are returned as they are: the result is the document."""
    def prog(depth, elem):
        out = []
        for _ in range(g.r.randint(0 if elem else 1, 2)):
            w = g.pick(["sel", "sel", "sel", "apply", "boxel" if elem else "box", "if", "tpl"]) if depth else "sel"
            inner = prog(depth - 1, elem or w == "sel") if depth else []
            if w == "sel":
                out.append({"o": "sel", "direct": g.chance(0.4), "once": g.chance(0.4), "sub": False,
                            "sel": g.sel(names=["a", "b"]), "p": inner, "id": 0})
                elem = False
            elif w == "tpl":
                out.append({"o": "tpl", "f": "id", "id": 0})
                elem = False
            else:
                op = {"o": w, "p": inner if w != "box" else prog(depth - 1, False), "id": 0}
                elem = elem and not op["p"]
                if w == "if":
                    op["b"] = g.chance(0.5)
                out.append(op)
        return out
    doc = g.parsed_doc(1, 9, names=["a", "b"])
    return {"k": "trans", "doc": doc, "parsed": g.chance(0.8), "prog": prog(g.r.randint(0, 3), False), "want": ["same"]}


def deep_names(g):
    """Names of every kind in every place of a document."""
    n = g.any_name()
    a, b = g.pick([("<", ">"), ("<", "></a>"), ("<a></", ">"), ("<a ", "></a>"), ("<a t ", '="1"></a>'), ("</", ">"),
                   ("<b><", "/></b>"), ("<a ", '="x"/>'), ("\n<a>\xe9</a>< ", ">")])
    return {"k": "parse", "x": gen.cp(a + n + b), "maxd": -1, "maxl": -1}


NO = {k: 0 for k in ("sub", "subc", "remove", "prepend", "append", "replace", "removec", "prependc", "appendc", "replacec",
                     "repeat", "repeatelse", "repeatc", "repeatcelse", "attr", "apply", "box", "boxel", "ifs", "ifelse",
                     "opt", "res", "tpl", "sel")}


def only(**w):
    return dict(NO, **w)


SELECTING = only(sel=6, sub=4, subc=2, append=2, prepend=2, replace=1, remove=1, attr=1, appendc=1)
CONTENT = only(sel=3, sub=1, subc=1, remove=1, prepend=2, append=2, replace=2, removec=1, prependc=2, appendc=2, replacec=2, repeat=0.3)
REPEATING = only(sel=3, subc=1, repeat=3, repeatelse=2, repeatc=3, repeatcelse=2, append=1, appendc=1, attr=1, remove=0.3)
ATTRIBUTES = only(sel=3, attr=8, appendc=0.3)
COMPOSING = only(sel=3, sub=1, subc=1, apply=2, box=2, boxel=2, ifs=2, ifelse=2, opt=2, res=2, tpl=2, append=1, appendc=1,
                 remove=0.3, attr=1, repeat=0.5)
CLASS_OPS = ["addclass", "rmclass", "setid", "rmid"]
ATTRIBUTE_OPS = ["addattr", "setattr", "replattr", "rmattr", "addto"]

LAWS = dict(select=["Agree", "Untouched", "Identity", "NestedOut"], subselect=["Agree", "NestedOut"],
            chain=["Agree", "TwoPassLaw"], content=["Agree", "Untouched", "NestedOut"], repeat=["Agree", "NestedOut"],
            attr=["Agree", "OthersKept", "AttrLaw"], insert=["Agree", "InsertLaw"], error=["Agree"],
            compose=["Agree", "WrapLaw"], broken=["NotRepaired", "StrayReported", "AssertionOnly"],
            log=["CallsInOrder", "NothingAfterFailure", "LazyCalls", "LazyStart"])
LAWS["class"] = ["Agree", "OthersKept", "ClassLaw"]


def tr(profile, size, **kw):
    return trans(profile, size, LAWS[profile], **kw)


def P(models, random, aspects, quick=3000, thorough=60000):
    return {"models": models, "random": random, "aspects": aspects, "n": {"quick": quick, "thorough": thorough}}


PROPS = {
    "C01": P({"quick": [parse("raw", 3, PARSE_INV["C01"]), parse("attr", 4, PARSE_INV["C01"], cap=8000), parse("decl", 4, PARSE_INV["C01"]), parse("shell", 2, PARSE_INV["C01"], cap=5000)],
              "thorough": [parse("shell", 3, PARSE_INV["C01"], cap=40000), parse("raw", 5, PARSE_INV["C01"], cap=60000), parse("attr", 5, PARSE_INV["C01"], cap=60000),
                           parse("decl", 5, PARSE_INV["C01"]), parse("chars", 5, PARSE_INV["C01"], cap=60000),
                           parse("nest", 5, PARSE_INV["C01"], cap=40000)]},
             some((6, lambda g: g.parse_case("valid")), (1, lambda g: g.parse_case("bad")), (0.3, lambda g: g.hole_case()), (0.5, lambda g: g.fault_case())),
             {"parse": ["events", "again"]}, quick=4000),
    "C02": P({"quick": [parse("nest", 4, PARSE_INV["C02"]), parse("void", 3, PARSE_INV["C02"]), parse("raw", 3, PARSE_INV["C02"]), parse("shell", 2, PARSE_INV["C02"], cap=5000)],
              "thorough": [parse("shell", 3, PARSE_INV["C02"], cap=40000), parse("nest", 5, PARSE_INV["C02"]), parse("void", 5, PARSE_INV["C02"]), parse("raw", 5, PARSE_INV["C02"], cap=60000)]},
             some((5, lambda g: g.parse_case("nest")), (1, lambda g: g.parse_case("nest", 25)), (1, lambda g: g.limit_case()),
                  (2, lambda g: g.parse_case("bad")), (0.5, lambda g: g.hole_case()), (2, lambda g: g.fault_case())),
             {"parse": ["accept"]}, quick=4000),
    "C03": P({"quick": [parse("depth", 5, PARSE_INV["C03"], vary=limits, cap=10000)],
              "thorough": [parse("depth", 7, PARSE_INV["C03"], vary=limits, cap=120000)]},
             some((4, lambda g: g.limit_case()), (1, lambda g: dict(g.file_case(), maxl=g.r.randint(0, 40)))),
             {"parse": ["accept", "events", "limit"], "file": ["outcome"], "big": ["harness", "accept", "error", "strike", "irregular"]}, quick=4000),
    "C04": P({"quick": [parse("lines", 3, PARSE_INV["C04"]), parse("close", 4, PARSE_INV["C04"], cap=6000), parse("attr", 4, PARSE_INV["C04"], cap=6000), parse("shell", 2, PARSE_INV["C04"], cap=5000)],
              "thorough": [parse("shell", 3, PARSE_INV["C04"], cap=40000), parse("lines", 4, PARSE_INV["C04"]), parse("close", 5, PARSE_INV["C04"], cap=60000),
                           parse("attr", 5, PARSE_INV["C04"], cap=60000), parse("nest", 5, PARSE_INV["C04"], cap=40000),
                           parse("decl", 5, PARSE_INV["C04"]), parse("chars", 5, PARSE_INV["C04"], cap=40000)]},
             some((5, lambda g: g.parse_case("bad")), (2, lambda g: g.parse_case("nest")), (1, lambda g: g.limit_case()), (0.5, lambda g: g.hole_case()), (1, lambda g: g.fault_case())),
             {"parse": ["error", "message"], "big": ["harness", "error", "place"]}, quick=5000),
    "C05": P({"quick": [text("ident", 2), text("chars", 1), text("case", 2)],
              "thorough": [text("ident", 3), text("chars", 1), text("case", 3)]},
             some((3, lambda g: g.ident_case()), (2, deep_names), (2, lambda g: g.sel_case(0.7)),
                  (2, t(badnames=0.5, badsel=0.3, w=only(sel=3, attr=3, appendc=1), depth=1))),
             {"ident": ["entries", "kept", "equality", "message"], "parse": ["accept", "error"],
              "sel": ["error"], "trans": ["accept", "error", "events"]}, quick=4000),
    "C06": P({"quick": [selector("text", 4), selector("match", 2), selector("list", 3)],
              "thorough": [selector("text", 6, cap=80000), selector("match", 3, cap=60000), selector("list", 5)]},
             some((1, lambda g: g.sel_case())), {"sel": ["error", "matches", "chain"]}, quick=5000),
    "C07": P({"quick": [tr("select", 3, cap=9000), tr("subselect", 3, cap=9000), tr("chain", 2, cap=5000)],
              "thorough": [tr("select", 4, cap=80000), tr("subselect", 4, cap=60000), tr("chain", 3, cap=60000)]},
             some((3, t(w=SELECTING, depth=3, names=["a", "b"], doc=(2, 10))), (1, t(w=SELECTING, depth=2)), (1, t()), (1, bank("select", "any"))),
            
             {"trans": ["accept", "events"]}, quick=4000),
    "C08": P({"quick": [tr("select", 3, cap=5000), tr("content", 2, cap=3000), tr("class", 1)],
              "thorough": [tr("select", 4, cap=60000), tr("content", 3, cap=60000), tr("attr", 2), tr("class", 2)]},
             some((3, t(depth=2)), (1, t(w=ATTRIBUTES, depth=1)),
                  (2, identities), (1, bank())),
             {"trans": ["events"]}, quick=4000),
    "C09": P({"quick": [tr("content", 2)], "thorough": [tr("content", 3, cap=120000), tr("insert", 1)]},
             some((3, t(w=CONTENT, depth=2)), (1, t(w=CONTENT, depth=2, streams=0.3)), (1, bank("content"))), {"trans": ["accept", "events"]}, quick=5000),
    "C10": P({"quick": [tr("repeat", 2)], "thorough": [tr("repeat", 4, cap=100000)]},
             some((3, t(w=REPEATING, depth=3)), (1, t(w=REPEATING, depth=2, names=["a", "b"], log=1)), (1, bank("repeat"))),
             {"trans": ["accept", "events"]}, quick=4000),
    "C11": P({"quick": [tr("attr", 2)], "thorough": [tr("attr", 3, cap=120000)]},
             some((1, t(w=ATTRIBUTES, depth=1, ops=4, attr_ops=ATTRIBUTE_OPS, doc=(1, 5))), (0.2, bank("attr"))),
             {"trans": ["accept", "events"]}, quick=5000),
    "C12": P({"quick": [tr("class", 2)], "thorough": [tr("class", 3, cap=120000)]},
             some((1, t(w=ATTRIBUTES, depth=1, ops=4, attr_ops=CLASS_OPS, doc=(1, 5))), (0.2, bank("attr"))),
             {"trans": ["accept", "events"]}, quick=5000),
    "C13": P({"quick": [tr("insert", 1), text("text", 3), text("entity", 3)],
              "thorough": [tr("insert", 1), text("text", 5, cap=60000), text("entity", 5, cap=60000)]},
             some((2, lambda g: g.text_case()), (3, t(w=dict(CONTENT, attr=4), depth=2, doc=(1, 5))),
                  (1, t(w=REPEATING, depth=2)), (1, t(w=COMPOSING, depth=3)), (1, bank())),
             {"trans": ["accept", "events"], "text": ["encoding", "equality"]}, quick=4000),
    "C14": P({"quick": [tr("error", 2, cap=7000), tr("error", 3, cap=4000), selector("list", 3)], "thorough": [tr("error", 4, cap=120000), selector("list", 5)]},
             some((3, t(errors=0.25, streams=0.2, badnames=0.15, badsel=0.1)), (1, t(errors=0.5, streams=0.1, depth=3, w=REPEATING)),
                  (1, t(errors=0.4, depth=3, w=COMPOSING)), (1, bank()), (1, t(badnames=0.5, badsel=0.3, depth=2)), (0.5, lambda g: g.sel_case(0.8))),
             {"trans": ["accept", "error", "chain"], "sel": ["error", "chain"]}, quick=4000),
    "C15": P({"quick": [tr("select", 2, vary=reparsed), tr("content", 2, vary=reparsed, cap=4000), tr("repeat", 2, vary=reparsed)],
              "thorough": [tr("select", 4, vary=reparsed, cap=60000), tr("subselect", 4, vary=reparsed, cap=30000),
                           tr("content", 3, vary=reparsed, cap=60000), tr("repeat", 3, vary=reparsed), tr("chain", 3, vary=reparsed, cap=30000)]},
             some((3, t(re=1)), (1, t(re=1, depth=3, ops=3)), (1, t(re=1, w=CONTENT)), (1, t(re=1, w=ATTRIBUTES, ops=3)), (1, bank(re=True))),
             {"trans": ["again", "nested"]}, quick=4000),
    "C16": P({"quick": [tr("compose", 2), tr("chain", 2, cap=3000)],
              "thorough": [tr("compose", 4, cap=120000), tr("chain", 3, cap=60000)]},
             some((3, t(w=COMPOSING, depth=4)), (1, t(w=COMPOSING, depth=2, echo=1)), (1, t(w=COMPOSING, depth=3, errors=0.1)), (1, two_passes), (1.5, lambda g: g.wrapped_case()), (1, bank("compose", "any", "repeat"))),
             {"trans": ["accept", "events", "error"], "hist": ["history"]}, quick=4000),
    "C17": P({"quick": [store("insert", 4), store("mixed", 3), store("equal", 3, cap=5000)],
              "thorough": [store("insert", 5, cap=60000), store("mixed", 4, cap=60000), store("equal", 3)]},
             some((3, lambda g: g.hist_case()), (2, lambda g: g.kin_case()), (2, t(twice=1)), (1, t(twice=1, streams=0.2, errors=0.1)), (0.5, bank(twice=True))),
             {"hist": ["history"], "trans": ["source", "twice"]}, quick=3000, thorough=40000),
    "C18": P({"quick": [reader("chars", 3), reader("markup", 3)], "thorough": [reader("chars", 4), reader("markup", 4, cap=40000)]},
             some((4, lambda g: g.file_case()), (1, lambda g: g.file_case(True))),
             {"file": ["outcome", "same", "report", "events", "direct"]}, quick=2500, thorough=30000),
    "C19": P({"quick": [tr("broken", 1)], "thorough": [tr("broken", 2, cap=120000)]},
             some((3, t(streams=0.5, malformed=0.8, depth=2)), (1, t(streams=0.5, malformed=0.6, errors=0.1, badnames=0.1, depth=3)),
                  (1, t(streams=0.6, malformed=0.8, depth=3, w=SELECTING)), (1, t(streams=0.6, malformed=0.8, depth=3, w=REPEATING)), (0.5, bank()),
                  (1, t(streams=0.3, malformed=0.6, depth=2, w=SELECTING, custom=0.4))),
             {"trans": ["accept", "events", "error", "chain"]}, quick=5000),
    "C20": P({"quick": [tr("log", 2)], "thorough": [tr("log", 3, cap=120000)]},
             some((3, t(log=1, streams=0.4)), (1, t(log=1, streams=0.4, errors=0.2)), (1, t(log=1, streams=0.5, malformed=0.6)),
                  (1, t(log=1, streams=0.3, w=REPEATING, depth=3)), (1, t(log=1, streams=0.3, w=COMPOSING, depth=4)), (2, bank())),
             {"trans": ["log"]}, quick=5000),
    "C21": P({"quick": [parse("chars", 4, ["StackInv"], ["Progress"], cap=8000), trans("broken", 1, ["AssertionOnly"], ["Terminates"], cap=4000)],
              "thorough": [parse("chars", 6, ["StackInv"], ["Progress"], cap=150000), trans("broken", 2, ["AssertionOnly"], ["Terminates"], cap=60000),
                           trans("error", 3, ["Agree"], ["Terminates"], cap=20000), trans("repeat", 3, ["Agree"], ["Terminates"], cap=20000)]},
             some((3, lambda g: g.parse_case("bad")), (1, lambda g: g.parse_case("bad", 30)), (1, lambda g: g.hole_case()), (0.5, lambda g: g.fault_case()), (1, t(streams=0.4, malformed=0.6, errors=0.1, badnames=0.1)),
                  (1, t(depth=4, ops=3)), (1, lambda g: g.ident_case()), (1, lambda g: g.sel_case(0.5)), (1, lambda g: g.file_case()),
                  (1, lambda g: g.hist_case())),
             {"big": ["harness", "accept", "error", "result", "content", "rendering", "again", "twice", "source", "irregular", "work", "memory", "place", "strike"]}, quick=6000, thorough=150000),
}

# Large documents (a piece repeated many times) and the programs which are run on them.
BIG = {"C01": None, "C02": None, "C07": dict(w=SELECTING, names=["a", "b"]), "C08": {}, "C09": dict(w=CONTENT), "C10": dict(w=REPEATING),
       "C11": dict(w=ATTRIBUTES, depth=1, attr_ops=ATTRIBUTE_OPS), "C12": dict(w=ATTRIBUTES, depth=1, attr_ops=CLASS_OPS),
       "C13": dict(w=CONTENT), "C15": {}, "C16": dict(w=COMPOSING), "C17": {}}
BIG_ASPECTS = {"C01": ["accept", "rendering", "again"], "C02": ["accept"], "C15": ["again"], "C17": ["twice", "source"]}
for prop in BIG:
    PROPS[prop]["aspects"]["big"] = BIG_ASPECTS.get(prop, ["result", "content"])
BIG_CASES = {"quick": [(70000, 8), (300, 24)], "thorough": [(70000, 60), (300, 200), (2000, 100)]}

EXTRA = {
    "C16": {"quick": lambda g: g.pair_cases(2), "thorough": lambda g: g.pair_cases(20)},
    "C20": {"quick": lambda g: g.pair_cases(), "thorough": lambda g: g.pair_cases(10)},
    "C07": {"quick": lambda g: g.deep_cases(1100) + g.deep_cases(70000), "thorough": lambda g: [c for n in (130, 260, 520, 1030, 2050, 4100, 8200, 33000, 70000) for c in g.deep_cases(n)]},
    "C08": {"quick": lambda g: g.pair_cases() + g.deep_cases(1100) + g.deep_cases(70000), "thorough": lambda g: g.pair_cases(10) + [c for n in (300, 2050, 70000) for c in g.deep_cases(n)]},
    "C13": {"quick": lambda g: [g.long_text_case() for _ in range(24)] + g.int_cases() + g.join_cases(12), "thorough": lambda g: [g.long_text_case() for _ in range(200)] + g.int_cases() + g.join_cases(40)},
    "C06": {"quick": lambda g: g.crowd_sel_cases(), "thorough": lambda g: [c for _ in range(10) for c in g.crowd_sel_cases()]},
    "C09": {"quick": lambda g: g.void_repeat_cases(), "thorough": lambda g: [c for _ in range(10) for c in g.void_repeat_cases()]},
    "C10": {"quick": lambda g: g.void_repeat_cases(), "thorough": lambda g: [c for _ in range(10) for c in g.void_repeat_cases()]},
    "C17": {"quick": lambda g: [g.long_hist_case() for _ in range(8)], "thorough": lambda g: [g.long_hist_case() for _ in range(100)]},
    "C11": {"quick": lambda g: g.join_cases(8) + g.crowd_cases(ATTRIBUTE_OPS, 3), "thorough": lambda g: g.join_cases(30) + g.crowd_cases(ATTRIBUTE_OPS, 10)},
    "C12": {"quick": lambda g: g.crowd_cases(CLASS_OPS, 4), "thorough": lambda g: g.crowd_cases(CLASS_OPS, 10)},
    "C01": {"quick": lambda g: g.name_cases() + g.fault_cases() + g.edge_cases(), "thorough": lambda g: g.name_cases() + g.fault_cases() + g.edge_cases()},
    "C02": {"quick": lambda g: g.deep_parse_cases() + g.name_cases() + g.fault_cases() + g.edge_cases(), "thorough": lambda g: [c for _ in range(8) for c in g.deep_parse_cases()] + g.name_cases() + g.fault_cases() + g.edge_cases()},
    "C03": {"quick": lambda g: g.big_limits(), "thorough": lambda g: [c for _ in range(8) for c in g.big_limits(200000)]},
    "C04": {"quick": lambda g: g.big_cases(300000, True) + g.fault_cases(), "thorough": lambda g: g.fault_cases() + g.big_cases(300000, True) + g.big_cases(2000000, True)},
    "C21": {"quick": lambda g: g.big_cases(400000), "thorough": lambda g: g.big_cases(400000) + g.big_cases(3000000)},
}


GROWN = {"quick": 300, "thorough": 3000}
TOWERS = {"quick": 20, "thorough": 200}


def random_cases(conf, tier, g):
    out = conf["random"](g, conf["n"][tier])
    out += [g.grow(c) for c in conf["random"](g, GROWN[tier])]
    for prop, extra in EXTRA.items():
        if PROPS[prop] is conf:
            out += extra[tier](g)
    for prop, prof in BIG.items():
        if PROPS[prop] is conf:
            out += [g.big_trans(prof, n) for n, m in BIG_CASES[tier] for _ in range(m)]
            if prof is not None:
                more = {"C15": dict(re=True), "C17": dict(twice=True)}.get(prop, {})
                out += [g.tower(dict(prof, **more)) for _ in range(TOWERS[tier])]
    return out
