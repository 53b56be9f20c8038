"""Random cases: documents, source texts, selectors, programs, histories, files.

Texts are lists of code points.  Everything is derived from the random generator given to G.
"""

import copy
import json
import os
import re

VOID = ["area", "base", "br", "col", "embed", "hr", "img", "input", "keygen", "link",
        "menuitem", "meta", "param", "source", "track", "wbr"]
RAW = ["script", "style", "title", "textarea"]
NAMES = ["a", "b", "div", "p", "li", "ul", "span", "x-y", "h1", "tag2"]
CLASSES = ["k", "l", "kk", "K", "foo", "bar", "a-b", "x2"]
IDS = ["i", "j", "I", "foo", "ij", "abcd"]
ATTRS = ["class", "id", "href", "t", "data-x", "T", "title", "CLASS", "Id"]
WS = [" ", "\n", "\t", "\r\n", "  ", "\n ", " \t"]
INTTYPES = {
    "u8": (0, 255), "u16": (0, 65535), "u32": (0, 4294967295), "u64": (0, 18446744073709551615),
    "usize": (0, 18446744073709551615), "i8": (-128, 127), "i16": (-32768, 32767),
    "i32": (-2147483648, 2147483647), "i64": (-9223372036854775808, 9223372036854775807),
    "isize": (-9223372036854775808, 9223372036854775807),
}
ATTR_OPS = ["addattr", "setattr", "replattr", "rmattr", "addto", "addclass", "rmclass", "setid", "rmid"]
UNI = [0xe9, 0xdf, 0x20ac, 0x4e2d, 0x1f600, 0xa0, 0x2028, 0x3000, 0x85, 0x1680, 0xfeff, 0x10ffff, 0x301, 0]


def cp(text):
    return [ord(c) for c in text]


def ev(k, t="", a=(), x=""):
    as_cp = lambda s: cp(s) if isinstance(s, str) else list(s)
    return {"k": k, "t": as_cp(t), "a": list(a), "x": as_cp(x)}


def attr(n, v):
    as_cp = lambda s: cp(s) if isinstance(s, str) else list(s)
    if v is None:
        return {"n": as_cp(n), "h": False, "v": []}
    return {"n": as_cp(n), "h": True, "v": as_cp(v)}


def effort(c):
    """A rough upper estimate of the number of events which the operations of a transformation handle."""
    total = 0

    def content(x):
        if x["c"] in ("tpl", "stream"):
            return len(x["ev"])
        if x["c"] == "ok":
            return content(x["i"])
        if x["c"] == "parse":
            return len(x["x"]) // 4
        return 2

    def go(prog, n, tags):
        nonlocal total
        for o in prog:
            total += n
            k = o["o"]
            if k in ("prepend", "append", "replace", "prependc", "appendc", "replacec"):
                n += content(o["c"])
            elif k == "sel":
                whole = go(o["p"], n, 1)
                n = whole if o["direct"] else max(whole, go(o["p"], n // max(tags, 1) + 1, 1) * max(tags, 1))
            elif "items" in o:
                m = go(o["p"], n, tags) * len(o["items"])
                total += m
                if "q" in o:
                    m = max(m, go(o["q"], n, tags))
                n = m
            elif k == "tpl" and o["f"] == "run":
                n = go(o["p"], n, tags)
            elif "p" in o:
                m = go(o["p"], n, tags)
                n = max(m, go(o["q"], n, tags)) if "q" in o else m
        return n

    tags = sum(1 for e in c["doc"] if e["k"] in ("open", "self", "void"))
    size = len(c["doc"]) + sum(len(e["a"]) + len(e["x"]) // 20 for e in c["doc"])
    total += go(c["prog"], len(c["doc"]), min(tags, 300))
    return total + size


class G:
    def __init__(self, rng):
        self.r = rng
        self.next_id = 1

    # ------------------------------------------------------------ basics
        self.family(0)

    def family(self, p=0.12):
        """Sometimes names for classes, identifiers, attributes and elements which are all nearly the same."""
        self.CLASSES, self.IDS, self.ATTRS, self.NAMES = CLASSES, IDS, ATTRS, NAMES
        if not self.chance(p):
            return
        n = self.pick([1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 24, 33])
        b = "".join(self.pick("abcdekxyz") for _ in range(n))
        kin = [b + "-x", b + "_x", b + "--y", b + "__y", b + "1", b + "s", b + b, "x" + b, "x-" + b, b[:-1] or "x", b[:-1] + "z", b[1:] or "y",
               b[:n // 2] + "-" + b[n // 2:] if n > 1 else "z-z", b + "-", b + "_", b + ":z", b + "'", b + "@m", b + "+"]
        kin = [b] + self.r.sample(kin, self.r.randint(1, 5)) + [b]
        where = self.r.random()
        if where < 0.75:
            self.CLASSES = kin
        if where > 0.5:
            self.IDS = kin
        if where > 0.7:
            self.ATTRS = ["class", "id"] + [self.pick(["", "data-"]) + k for k in kin if re.fullmatch("[a-z0-9_:-]+", k)]
        if where > 0.9:
            self.NAMES = [k for k in kin if re.fullmatch("[a-z0-9-]+", k)]

    def pick(self, xs):
        return self.r.choice(xs)

    def chance(self, p):
        return self.r.random() < p

    def case(self, name, p=0.25):
        """Another letter case of a name."""
        if not self.chance(p):
            return name
        return "".join(c.upper() if self.chance(0.5) else c.lower() for c in name)

    def ws(self, p=0.3):
        return self.pick(WS) if self.chance(p) else ""

    # What texts look like in practice.
    REAL = ["&nbsp;", "&#160;", "&#xA0;", "&copy 2018", "{{ name }}", "{% if x %}", "${x}", "%s", "\\n", "javascript:void(0)", "http://a.b/c?d=e&f=g#h",
            "\ufeffx", "x\u2028y", "\u200b", "\0", "//]]>", "]]>", "#include virtual=", "[endif]", " x ", "\tx\n", "true", "null", "0", "-1", "1e9",
            "a=b", "x/", "/", "//", "?>", "--", "->", "-- >", "--!>", "&amp;amp;", "&lt;b&gt;", "&", "&&", "a&b;c", "&;", "text/html; charset=utf-8",
            "color: red;", "a,b;c", "e\u0301", "\u0130", "\u1e9e\xdf", "K\u212a", "\U0001f468\u200d\U0001f469", "\u202eabc", "\x1f", "\x7f", "\x85", "\xa0"]
    COMMENTS = ["[if IE]> x <![endif]", "[if lt IE 9]><script></script><![endif]", "[if !IE]><!", "<![endif]", "<b>x</b>", "# include", "#exec cmd=", "?xml ?",
                "[CDATA[x]]", "DOCTYPE html", ">", "->", "-", "--", "- -", "!", "--!>", "<!--", "<!-- -- ", " ko foreach: x ", "TODO", "/", "</a>", "\n", "\u2014"]

    def plain(self, lo=0, hi=6, special=True, uni=True):
        """Text without '<'."""
        if special and hi >= 3 and self.chance(0.05):
            x = self.pick(self.REAL)
            if uni or x.isascii():
                return self.pick(["", "", " ", "x"]) + x + self.pick(["", "", " ", "y"])
        out = []
        for _ in range(self.r.randint(lo, hi)):
            k = self.r.random()
            if k < 0.55:
                out.append(self.pick("abcxyzABC019"))
            elif k < 0.75:
                out.append(self.pick(" \n\t .,;-_"))
            elif k < 0.9 and special:
                out.append(self.pick(["&", ">", '"', "'", "/", "=", "&lt;", "&amp;", "-->", "&quot;", "!", "\r"]))
            elif uni:
                out.append(chr(self.pick(UNI)))
        return "".join(out)

    def word(self):
        return self.pick(self.CLASSES)

    def alike(self, x):
        """Of the same size, but with a character of several bytes somewhere."""
        n = self.pick([n for n in (1, 2, 2, 3, 3, 4) if n <= max(len(x), 1)])
        i = self.r.randint(0, max(len(x) - n, 0))
        return x[:i] + {1: "\x7f", 2: "\xe4", 3: "\u20ac", 4: "\U0001f600"}[n] + x[i + n:]

    def classes(self):
        ws = [self.case(self.word(), 0.15) for _ in range(self.r.randint(0, 4))]
        if self.chance(0.12):
            # one which needs care when it is written
            ws.insert(self.r.randint(0, len(ws)), self.word() + self.pick(["&amp;", "&", ">", "'", "&lt;", "&quot;", "<", "\xa0", "&#32;"]) + self.pick(["", self.word()]))
        if ws and self.chance(0.06):
            i = self.r.randrange(len(ws))
            ws[i] = self.alike(ws[i])
        sep = self.pick([" ", " ", "  ", "\n", "\t", " \n "])
        t = sep.join(ws)
        if self.chance(0.2):
            t = self.pick([" ", "\n", "\xa0"]) + t
        if self.chance(0.2):
            t = t + " "
        if self.chance(0.05) and ws:
            t = t.replace(" ", "\u2003", 1)
        return t

    def attrs(self, n=None, rich=True):
        n = self.pick([0, 0, 1, 1, 2, 3, 4]) if n is None else n
        out = []
        for _ in range(n):
            name = self.pick(self.ATTRS)
            low = name.lower()
            if low == "class":
                v = self.classes()
            elif low == "id":
                v = self.case(self.pick(self.IDS), 0.2) if self.chance(0.9) else self.pick([self.plain(0, 3), self.alike(self.pick(self.IDS)), self.alike(self.pick(self.IDS)), self.pick(self.IDS) + self.pick(["&amp;", "&", "<", "&#32;", " "])])
            else:
                v = self.plain(0, 5)
            v = v.replace('"', "'")
            if low not in ("class", "id") and self.chance(0.2):
                v = ""
            out.append(attr(name, None if self.chance(0.15) else v))
        if out and self.chance(0.12):
            # once more, the same or nearly the same
            a = self.pick(out)
            out.insert(self.r.randint(0, len(out)), {"n": cp(self.case("".join(map(chr, a["n"])), 0.5)), "h": a["h"], "v": list(a["v"])})
            if self.chance(0.3):
                out[-1]["h"], out[-1]["v"] = False, []
        return out

    # ------------------------------------------------------------ documents as events
    def forest(self, n, depth=0, names=None, rich=True, raw=True, maxdepth=5):
        """About n nodes."""
        names = names or self.NAMES
        out = []
        while n > 0:
            k = self.r.random()
            if k < 0.25:
                t = self.plain(1, 5)
                if out and out[-1]["k"] == "data":
                    t = ""
                if t:
                    out.append(ev("data", x=t))
                n -= 1
            elif k < 0.32 and rich:
                out.append(ev("comment", x=self.plain(0, 5).replace("-->", "--") + self.pick(["", "<b>", "<", "-"])))
                if self.chance(0.2):
                    out[-1]["x"] = cp(self.pick(["", " ", "\n"]) + self.pick(self.COMMENTS) + self.pick(["", " ", "  \n", "\xa0"]))
                if "-->" in "".join(map(chr, out[-1]["x"])) + "-->" and \
                        ("".join(map(chr, out[-1]["x"])) + "-->").index("-->") != len(out[-1]["x"]):
                    out[-1]["x"] = cp("c")
                n -= 1
            elif k < 0.42:
                out.append(ev("void", self.case(self.pick(VOID)), self.attrs()))
                n -= 1
            elif k < 0.52:
                nm = self.pick(names) if self.chance(0.85) or not raw else self.pick(RAW)
                out.append(ev("self", self.case(nm), self.attrs()))
                n -= 1
            elif k < 0.58 and raw:
                nm = self.pick(RAW)
                x = self.plain(0, 4) + self.pick(["", "<b>", "</b>", "<", "< /", "<!--", self.lookalike(nm)]) + self.plain(0, 2)
                if self.chance(0.15):
                    x = self.pick(["", self.pick(self.EDGES)]) + x + self.pick(["", self.pick(self.EDGES)])
                out.append(ev("open", self.case(nm), self.attrs()))
                out.append(ev("raw", x=x))
                out.append(ev("close", self.case(nm)))
                n -= 1
            else:
                m = self.r.randint(0, min(n - 1, 4)) if depth < maxdepth else 0
                nm = self.case(self.pick(names))
                out.append(ev("open", nm, self.attrs()))
                out += self.forest(m, depth + 1, names, rich, raw, maxdepth)
                out.append(ev("close", self.case(nm, 0.15)))
                n -= 1 + m
        return out

    def lookalike(self, nm):
        """Something in raw text which looks like its end and is not."""
        other = self.pick([n for n in RAW if n.lower() != nm.lower()])
        return self.pick(["</%ss>" % nm, "</%s2 >" % nm, "</%s>" % nm[:-1], "</%s>" % other, "</%s ;>" % nm, "</%s x>" % nm, "<%s>" % nm,
                          "</%s-x>" % nm, "< / x%s>" % nm, "</ %s;>" % nm, "</>", "</ >", "<%s/>" % nm, "</%s/>" % nm, "</%s=>" % nm])

    def doc(self, lo=0, hi=9, names=None, rich=True, raw=True):
        d = self.forest(self.r.randint(lo, hi), 0, names, rich, raw)
        if rich and self.chance(0.1):
            d = [ev("doctype", x=self.pick(["html", "HTML"]))] + d
        return d

    def parsed_doc(self, *args, **kw):
        """A document as the parser yields it (no empty text)."""
        return [e for e in self.doc(*args, **kw) if not (e["k"] in ("data",) and not e["x"])]

    # ------------------------------------------------------------ source texts
    def layout(self, e):
        """Source text for an event in some layout."""
        k = e["k"]
        s = lambda x: "".join(map(chr, x))
        if k == "doctype":
            return "<!" + self.ws() + self.case("doctype") + self.pick([" ", "\n", "  "]) + s(e["x"]) + self.ws() + ">"
        if k == "comment":
            return "<!--" + s(e["x"]) + "-->"
        if k in ("data", "raw"):
            return s(e["x"])
        if k == "close":
            return "<" + self.ws(0.1) + "/" + self.ws(0.1) + s(e["t"]) + self.ws(0.2) + ">"
        out = "<" + self.ws(0.07) + s(e["t"])
        glue = False
        for a in e["a"]:
            out += ("" if glue and self.chance(0.5) else self.pick(WS)) + s(a["n"])
            glue = False
            if a["h"]:
                out += self.ws(0.15) + "=" + self.ws(0.15) + '"' + s(a["v"]) + '"'
                glue = True
        if k == "self":
            out += self.ws(0.5) + "/" + self.ws(0.1)
        elif k == "void" and self.chance(0.3):
            out += self.ws(0.5) + "/"
        return out + self.ws(0.2) + ">"

    def source(self, doc):
        return "".join(self.layout(e) for e in doc)

    FRAGS = ["<", ">", "/", "=", '"', "'", "!", "-", "--", "-->", "<!--", "</", "/>", " ", "\n", "a", "<a>",
             "</a>", "<br>", "</br>", "<script>", "</script>", "<!doctype html>", "<!doctype", "&", ",", ";",
             "\x0c", "\x0b", "\xa0", "\xe9", "\u20ac", "\U0001f600", "\r", "\t", "<A b>", "</A >", "< /a>",
             "< a>", "<a b=\"", "<a b=c>", "<;>", "</;>", "<a ;>", "<a\x0c>", "<a \xe9>", "<title>", "</TITLE>",
             "<a/>", "<textarea x>", "=\"\"", "x=\"1\"", "\0"]

    def soup(self, n):
        return "".join(self.pick(self.FRAGS) for _ in range(self.r.randint(0, n)))

    def mutate(self, text):
        t = list(text)
        for _ in range(self.pick([1, 1, 1, 2, 3])):
            k = self.r.random()
            i = self.r.randint(0, len(t))
            if k < 0.25 and t:
                del t[min(i, len(t) - 1)]
            elif k < 0.5:
                t[i:i] = list(self.pick(self.FRAGS))
            elif k < 0.65:
                t = t[:i]
            elif k < 0.75:
                t = t[i:]
            elif k < 0.9 and t:
                j = self.r.randint(0, len(t))
                a, b = min(i, j), max(i, j)
                b = min(b, a + 12)
                t[a:a] = t[a:b]
            elif t:
                j = self.r.randint(0, len(t))
                a, b = min(i, j), max(i, j)
                b = min(b, a + 12)
                del t[a:b]
        return "".join(t)

    def unnest(self, doc):
        """Break the nesting of a document."""
        d = list(doc)
        for _ in range(self.pick([1, 1, 2])):
            k = self.r.random()
            tags = [i for i, e in enumerate(d) if e["k"] in ("open", "close")]
            if k < 0.4 and tags:
                del d[self.pick(tags)]
            elif k < 0.6:
                d.insert(self.r.randint(0, len(d)), ev("close", self.pick(self.NAMES + VOID[:2])))
            elif k < 0.75:
                d.insert(self.r.randint(0, len(d)), ev("open", self.pick(self.NAMES)))
            elif len(tags) > 1:
                i, j = self.pick(tags), self.pick(tags)
                d[i], d[j] = d[j], d[i]
        return d

    def parse_case(self, kind="any", size=9):
        self.family(0.2)
        k = self.r.random()
        if kind == "valid":
            text = self.source(self.parsed_doc(0, size))
        elif kind == "nest":
            text = self.source(self.unnest(self.parsed_doc(0, size)) if k < 0.6 else self.parsed_doc(0, size))
        elif kind == "bad":
            d = self.parsed_doc(0, size)
            if k < 0.45:
                text = self.mutate(self.source(d))
            elif k < 0.6:
                text = self.source(self.unnest(d))
            elif k < 0.72:
                text = self.soup(8)
            elif k < 0.82:
                # tags made of anything
                inner = lambda m: "".join(self.pick(["a", "b", " ", "/", "=", "\"", "\"\"", "\"c\"", "\n", "<", "!", "-", ";", "'", "\xe9", ",", "A",
                                                     "b = 'c'", " b='c d'", " b =", " b= c", " b\n=\n'", " b = \"c\"", " b=\"c'", " b = ", "/>"])
                                          for _ in range(self.r.randint(0, m)))
                text = self.pick(["", "x", "<b/>"]) + "".join(
                    self.pick(["<a%s>", "<%s>", "</a%s>", "</%s>", "<a%s></a>", "<a></a%s>", "<!%s>", "<a b%s>", "<br%s>", "<script%s></script>",
                               "<script></script%s>", "<a%s/>"]).replace("%s", inner(5)) for _ in range(self.r.randint(1, 3)))
            else:
                # valid beginning, then a fault
                text = self.source(d) + self.pick(self.FRAGS) + self.soup(3)
        else:
            return self.parse_case(self.pick(["valid", "nest", "bad"]), size)
        return {"k": "parse", "x": cp(text), "maxd": -1, "maxl": -1}

    FAULTS = ["<a b='c'></a>", "<a b=''></a>", "<a b='c' d=\"e\"/>", "<a b=c></a>", "<a b=c/>", "<a \"b\"></a>", "<a =\"b\"></a>", "<a =></a>", "<a b=></a>",
              "<a b=\"c\"d=\"e\"></a>", "<a b=\"c\"d></a>", "<a b=\"c\"/ ></a>", "<a / b></a>", "<a /b></a>", "<a/b></a>", "<a//>", "<a/ />", "<a b=\"c>\"></a>", "<a b==\"c\"></a>", "<a b=\"\"\"\"></a>",
              "<a b c=\"d\" b></a>", "<a b=\"1\" b=\"2\"></a>", "<a b = \"c\"></a>", "<a b\n=\n\"c\"></a>", "<a b= 'c'></a>", "<a b=`c`></a>", "<a b=\"c'></a>", "<a b='c\"></a>",
              "<></>", "<>", "</>", "</ >", "< >", "< a></a>", "< a ></ a >", "<a></a >", "<a></a\n>", "<a></a b>", "<a></a/>", "<a></ a/>", "<a></a b=\"c\">", "<a></A>", "<A></a>",
              "<!doctype>", "<!DOCTYPE html>", "<!Doctype HTML>", "<!doctype  html>", "<!doctype html >", "<! doctype html>", "<!doctype html5>", "<!doctypehtml>", "<!doctype\nhtml>",
              "<!doctype html public \"x\">", "<!html>", "<!>", "<! >", "<!a>", "<!element x>", "<?xml?>", "<?xml version=\"1.0\"?>", "<?php x ?>", "<![CDATA[x]]>", "<![if x]>", "<%x%>", "<#a>", "<@>", "<1>", "<1></1>", "<a1></a1>",
              "<!-->", "<!--->", "<!---->", "<!----->", "<!--a--b-->", "<!--a-- >", "<!--a--!>", "<!- a -->", "<!--a->", "<!-- > -->", "<!--<b>-->", "<!--<!--a-->-->", "-->", "<! -- a -->",
              "</br>", "<br></br>", "<br/>", "<br />", "<br b/>", "<br b=\"c\"/>", "<br></BR>", "<BR>", "</p>", "<p/>", "<p/></p>", "<img></img>", "<p><p></p>", "<li><li>", "<p></div>", "<div/></div>",
              "<script/>", "<script/></script>", "<SCRIPT></script>", "<script></SCRIPT>", "<script></script >", "<script></ script>", "<script></script/>", "<script></script b>", "<script><b></script>", "<script></b></script>",
              "<script><!--</script>-->", "<script><script></script></script>", "<title></title></title>", "<textarea><textarea></textarea>", "<style></style\n>", "<title>&lt;</title>", "<title/>",
              "&", "&;", "&amp", "&lt;", "&#60;", "&#x3c;", "&nbsp;", ">", "\"", "'", "a>b", "a<b", "a < b", "a<", "<", "</", "<a", "<a b", "<a b=", "<a b=\"", "<a b=\"c", "</a", "<!", "<!-", "<!--", "<!--a--",
              "<a\tb></a>", "<a\rb></a>", "<a\x0cb></a>", "<a\u00a0b></a>", "<a\u00a0></a>", "<\u00a0a></a>", "<a\u3000b></a>", "<a></a\u00a0>", "\ufeff", "\ufeff<a></a>", "<\ufeffa></a>", "\x00", "<a\x00></a>",
              "<\xe9></\xe9>", "<a \xe9></a>", "<a \xe9=\"b\"></a>", "<a b=\"\xe9\"></a>", "<a:b></a:b>", "<a.b></a.b>", "<a_b></a_b>", "<a-b></a-b>", "<-a></-a>", "<a b:c></a>", "<a @b></a>", "<a #b></a>", "<a b;></a>",
              "<a b,c></a>", "<a><b></a></b>", "<a><b></a>", "<b><a></b>", "<a b>></a>", "<<a></a>", "<a></a>>", "<a<b></a>", "<a <b></a>", "<a b=\"<\"></a>", "<a b=\">\"></a>", "<a b<c></a>"]

    HTML = """a abbr acronym address applet area article aside audio b base basefont bdi bdo bgsound big blink blockquote body br
        button canvas caption center cite code col colgroup command content data datalist dd del details dfn dialog dir div dl dt
        element em embed fieldset figcaption figure font footer form frame frameset h1 h2 h3 h4 h5 h6 head header hgroup hr html i
        iframe image img input ins isindex kbd keygen label legend li link listing main map mark marquee math menu menuitem meta
        meter multicol nav nextid nobr noembed noframes noscript object ol optgroup option output p param picture plaintext pre
        progress q rb rp rt rtc ruby s samp script search section select shadow slot small source spacer span strike strong style
        sub summary sup svg table tbody td template textarea tfoot th thead time title tr track tt u ul var video wbr xmp""".split()

    def name_cases(self):
        """Every name of HTML, every short name, and the neighbours of those with a meaning, as elements."""
        letters = "abcdefghijklmnopqrstuvwxyz"
        names = set(self.HTML) | {x + y for x in letters for y in letters} | set(letters)
        for v in VOID + RAW:
            for i in range(len(v)):
                names |= {v[:i] + v[i + 1:], v[:i] + v[i] + v[i:], v[:i] + self.pick(letters) + v[i + 1:], v[:i] + "-" + v[i:]}
                names |= {v[:i] + w + v[i + len(w):] for w in "0123456789_:.\\" if i < len(v) - 1 and v[:i]}
            names |= {v + x for x in ("s", "2", "-x", v, "/x")} | {x + v for x in ("x", "x-")} | {v[::-1]}
        out = []
        for n in sorted(x for x in names if x):
            for m in {n, self.case(n, 1)}:
                text = self.pick(["<%s><b></b></%s>", "<%s><b></%s>", "<%s></%s>", "<%s>x</b></%s>"]) % (m, self.case(n, 0.3)) if self.chance(0.7) else "<%s>" % m
                out.append({"k": "parse", "x": cp(text + self.pick(["", "", "y", "<a/>"])), "maxd": -1, "maxl": -1})
                out.append({"k": "parse", "x": cp("<%s></%s>" % (m, n)), "maxd": -1, "maxl": -1})
        return out

    EDGES = ["\n", "\n\n", "\n\n\n", " ", "  ", "\t", "\r\n", "\r", "\r\n\r\n", "\ufeff", "\0", "\x0c", "\xa0", "\u2028", "-", "--", "/", "!", "&", "]]", "\x1a", "\u200b"]

    def edge_cases(self):
        """Texts of all kinds which begin or end with something that many readers drop or normalise."""
        holders = [("<%s>" % t, "</%s>" % t.swapcase()) for t in RAW] + [("<TITLE x>", "</title>"), ("<p>", "</p>"), ("<pre>", "</pre>"), ("<br>", "<br>"), ("", ""),
                   ("<!--", "-->"), ("<p>x<!--", "--></p>"), ("<a b=\"", "\"></a>"), ("<a class=\"", "\"/>"), ("<img src=\"", "\">"), ("</p>"[:0] + "<p/>", "")]
        return [{"k": "parse", "x": cp(h + x + t), "maxd": -1, "maxl": -1} for h, t in holders for e in self.EDGES for x in (e, e + "x", "x" + e, e + "x y" + e)]

    def fault_cases(self):
        """Each of these constructs for itself, and within others."""
        return [{"k": "parse", "x": cp(a + f + b), "maxd": -1, "maxl": -1} for f in self.FAULTS for a, b in (("", ""), ("<e>", "</e>"), ("x\u20ac\n", "<br>"))]

    def fault_case(self):
        """A valid text with one construct, of which many readers are tolerant, in it (or some of them)."""
        x = self.source(self.parsed_doc(0, 5)) if self.chance(0.8) else ""
        for _ in range(self.pick([1, 1, 1, 2])):
            cuts = [i for i, c in enumerate(x) if c in "<>"] + [0, len(x)]
            i = self.pick(cuts) if self.chance(0.8) else self.r.randint(0, len(x))
            i += 1 if i < len(x) and x[i] == ">" else 0
            f = self.pick(self.FAULTS)
            k = self.r.random()
            if k < 0.25:
                # with other names
                f = re.sub(r"\b[a-e]\b", lambda m: self.pick(["a", "b", "c", "div", "T", "class", "id", "x"]), f)
            elif k < 0.35:
                f = self.case(f, 0.4)
            elif k < 0.45 and f:
                j = self.r.randrange(len(f))
                f = f[:j] + self.pick(["", " ", "'", "\"", "/", "=", "\n", f[j]]) + f[j + 1:]
            x = x[:i] + f + x[i:]
        return {"k": "parse", "x": cp(x), "maxd": -1, "maxl": -1}

    HOLES = ["<!doctype %s>", "<!doctype html%s>", "<!doctype html %s>", "<! doctype%s>", "<!doctype %s", "<!%s>", "<!--%s-->", "<!--%s", "<%s>", "<%s/>", "<%s", "</%s>", "</%s", "<a %s></a>",
             "<a %s/>", "<a %s", "<a %s=", "<a %s=\"", "<a b=\"%s\"></a>", "<a b=\"%s\"/>", "<a b=\"%s", "<a b=%s></a>", "<a b=\"\"%s/>",
             "<a b= %s", "<script>%s</script>", "<script>%s", "<script></%s", "<title>%s</title>", "<a>%s</a>", "<a>%s</b>", "<a>%s",
             "%s</a>", "<a>%s</a", "%s", "< %s a/>", "<a/ %s", "</a %s", "<b><a>%s</b>", "<style></style %s", "<;%s", "<a ;%s", "<%s></b>",
             "<b></%s>", "<%s>", "<b><%s><br>", "</%s>"]

    def hole_case(self):
        """A construct, whole or cut off, with something long and of any alignment in one of its places."""
        t = self.pick(self.HOLES)
        c = self.pick(["\u20ac", "\u20ac", "\xe9", "\U0001f600", "a", "\u3000", "\x85", " ", "\n", "x ", "a-", "/", "--", "!"])
        if self.chance(0.3):
            fill = "".join(self.pick(["/", " ", "-", "a", "=", "\"", "'", "!", "\n", "\xe9", ";", "<"]) for _ in range(self.r.randint(0, 3)))
            return {"k": "parse", "x": cp(t.replace("%s", fill)), "maxd": -1, "maxl": -1}
        fill = "abc"[:self.r.randint(0, 3)] + c * self.pick([self.size(), self.r.randint(0, 40), self.r.randint(0, 140)]) + \
            self.pick(["", "", "z", "\xe9", "\"", "<", ">"])
        x = self.pick(["", "", "x", "<b/>", "\n", "\xe9"]) + t.replace("%s", fill) + self.pick(["", "", "<b>", "\u20ac", ">"])
        return {"k": "parse", "x": cp(x), "maxd": -1, "maxl": -1}

    def deep(self, n):
        """A source with nesting around n."""
        out, st = [], []
        for _ in range(self.r.randint(1, 4 * n + 4)):
            k = self.r.random()
            if k < 0.5 and len(st) < n + 2:
                nm = self.pick(["a", "b", "LI", "div"])
                st.append(nm)
                out.append("<" + nm + self.pick(["", "", " x", ' class="k"']) + ">")
            elif k < 0.75 and st:
                out.append("</" + self.case(st.pop()) + ">")
            elif k < 0.9:
                out.append(self.pick(["<br>", "<b/>", "<IMG/>", "<!--<a>-->", "x", "<script/>", "<hr />"]))
            else:
                out.append(self.pick(["\n", "\xe9", "<title><a></title>"]))
        while st and self.chance(0.97):
            out.append("</" + st.pop() + ">")
        return "".join(out)

    def limit_case(self):
        if self.chance(0.7):
            n = self.pick([0, 0, 1, 1, 2, 3, 4, 5, 8])
            text = self.deep(n)
            maxd = max(-1, n + self.pick([0, 0, 0, -1, 1]))
        else:
            text = self.source(self.parsed_doc(0, 6))
            maxd = self.pick([-1, -1, 0, 1, 2, 3])
        maxl = -1
        if self.chance(0.4):
            maxl = max(0, len(text.encode()) + self.pick([0, 0, -1, -1, 1, -2, -7, 5]))
            if self.chance(0.2):
                maxl = len(text)
        if self.chance(0.08):
            # limits beyond any size
            maxd, maxl = self.pick([(maxd, -self.r.randint(2, 6)), (-self.r.randint(2, 6), maxl)])
        return {"k": "parse", "x": cp(text), "maxd": maxd, "maxl": maxl}

    # ------------------------------------------------------------ names
    def bad_name(self):
        k = self.r.random()
        if k < 0.1:
            return ""
        base = list(self.pick(self.NAMES + self.CLASSES + ["foo1", "A_b"]))
        for _ in range(self.pick([1, 1, 2])):
            c = self.pick(['=', '"', '/', '>', '<', '&', ',', ';', ' ', '\n', '\t', '\x0b', '\x0c', '\r',
                           '\xe9', '\u20ac', '\xa0', '\u2003', '\x85'])
            base.insert(self.r.randint(0, len(base)), c)
        return "".join(base)

    def any_name(self):
        if self.chance(0.4):
            return self.bad_name()
        n = self.case(self.pick(self.NAMES + self.CLASSES + VOID))
        if self.chance(0.3):
            i = self.r.randint(0, len(n))
            n = n[:i] + self.pick(["!", "'", "#", ".", "-", "_", ":", "@", "\x00", "\x7f", "%", "(", "[", "\\", "|", "~", "?", "+", "*", "^", "`", "{"]) + n[i:]
        return n

    # ------------------------------------------------------------ selectors
    def sel(self, bad=0.0, wrap=True, names=None):
        if self.chance(bad):
            return self.bad_sel()
        k = self.r.random()
        names = names or self.NAMES
        tag = lambda: self.case(self.pick(names + ["br", "script", "img"]) if self.chance(0.4) else self.pick(names[:4]), 0.2)
        if k < 0.5:
            s = {"s": "static"}
            text = ""
            while not text:
                if self.chance(0.7):
                    text += tag()
                if self.chance(0.25):
                    text += "#" + self.case(self.pick(self.IDS), 0.2)
                for _ in range(self.pick([0, 0, 0, 1, 1, 2, 3])):
                    text += "." + self.case(self.word(), 0.2)
            s["x"] = cp(text)
        elif k < 0.65:
            s = {"s": "tag", "x": cp(tag())}
        elif k < 0.75:
            s = {"s": "id", "x": cp(self.case(self.pick(self.IDS), 0.3))}
        elif k < 0.87:
            s = {"s": "class", "x": cp(self.case(self.word(), 0.3))}
        else:
            s = {"s": "classes", "xs": [cp(self.case(self.word(), 0.3)) for _ in range(self.r.randint(1, 3))]}
            if self.chance(0.3):
                s["xs"].append(self.pick(s["xs"]))
        if wrap and self.chance(0.35):
            s["w"] = self.pick(["ref", "rc", "into", "res"])
        return s

    def bad_sel(self):
        k = self.r.random()
        if k < 0.6:
            parts = [self.pick(["", "a", self.bad_name()])]
            if self.chance(0.5):
                parts.append("#" + self.pick(["", "i", self.bad_name(), "a#b"]))
            for _ in range(self.pick([0, 0, 1, 2, 3])):
                parts.append("." + self.pick(["", "k", "l", self.bad_name(), "a#b"]))
            return {"s": "static", "x": cp("".join(parts))}
        if k < 0.85:
            return {"s": self.pick(["tag", "id", "class"]), "x": cp(self.any_name())}
        xs = [cp(self.any_name()) for _ in range(self.r.randint(0, 3))]
        for _ in range(self.pick([0, 0, 1, 2]) if xs else 0):
            # the same or nearly the same name again
            xs.insert(self.r.randint(0, len(xs)), cp(self.case("".join(map(chr, self.pick(xs))), 0.3)))
        return {"s": "classes", "xs": xs}

    def crowd_sel(self, e):
        """A selector of many names which are nearly the same, for an element which has them, nearly."""
        b = "".join(self.pick("abc") for _ in range(self.pick([1, 2, 4, 8, 9])))
        pool = sorted({b[:self.r.randint(1, len(b))] + self.pick(["", "", "-", "_", "x", "-x", "1"]) * self.pick([1, 1, 2]) + self.pick(["", "", "z"]) for _ in range(30)} | {b})
        want = self.r.sample(pool, self.r.randint(1, min(len(pool), 9)))
        have = [self.case(w, 0.15) for w in want]
        for _ in range(self.pick([0, 1, 1, 1, 2])):
            # one is missing, or another one instead
            i = self.r.randrange(len(have))
            have[i:i + 1] = [self.pick(pool)] if self.chance(0.5) else []
            if not have:
                break
        have += [self.pick(pool) for _ in range(self.pick([0, 0, 1, 3]))]
        self.r.shuffle(have)
        i = self.pick([0, 0, 0, self.r.randint(0, len(have))])
        e["a"] = [a for a in e["a"] if "".join(map(chr, a["n"])).lower() != "class"]
        for words in [have[:i], have[i:]]:
            if words or self.chance(0.1):
                e["a"].insert(self.r.randint(0, len(e["a"])), attr("class", " ".join(words)))
        if self.chance(0.5):
            return {"s": "classes", "xs": [cp(w) for w in want]}
        text = "".join("." + w for w in want)
        if self.chance(0.4):
            text = "".join(map(chr, e["t"])) + text
        return {"s": "static", "x": cp(text)}

    def sel_case(self, bad=0.25):
        self.family(0.2)
        d = self.parsed_doc(1, 8)
        parsed = self.chance(0.7)
        s = self.bad_sel() if self.chance(bad) else self.sel()
        tags = [e for e in d if e["t"] and e["k"] != "close"]
        if tags and self.chance(0.2):
            # nearly one of the names in the document
            e = self.pick(tags)
            odd = self.chance(0.5)
            if odd:
                # names of unusual characters
                n = "".join(self.pick("aZ0@`[{_~^9]}|\\$%()*+-:?") for _ in range(self.r.randint(1, 3)))
                if self.chance(0.4):
                    if e["k"] in ("void", "self"):
                        e["k"], e["t"] = "self", cp(n)
                elif self.chance(0.5):
                    e["a"].append(attr("class", "k " + n))
                else:
                    e["a"].append(attr("id", n))
            ids = ["".join(map(chr, a["v"])) for a in e["a"] if "".join(map(chr, a["n"])).lower() == "id"]
            cls = [w for a in e["a"] if "".join(map(chr, a["n"])).lower() == "class" for w in "".join(map(chr, a["v"])).split()]
            near = lambda x: self.near(x) if self.chance(0.8) else x
            w = self.pick(["tag", "tag"] + ["id"] * 2 * len(ids) + ["class"] * 2 * len(cls))
            x = near("".join(map(chr, e["t"])) if w == "tag" else self.pick(ids) if w == "id" else self.pick(cls))
            s = {"s": w, "x": cp(x)} if self.chance(0.6) else \
                {"s": "static", "x": cp({"tag": "", "id": "#", "class": "."}[w] + x)}
        elif tags and self.chance(0.12):
            s = self.crowd_sel(self.pick(tags))
        if self.chance(0.04):
            s = {"s": "custom", "ks": self.r.sample(["data", "comment", "close", "open", "self", "void", "doctype"], 2)}
        return {"k": "sel", "doc": d, "parsed": parsed, "sel": s}

    # ------------------------------------------------------------ values and content
    def ins_text(self, special):
        return self.plain(0, 5, special=special) if not special else \
            self.plain(0, 3) + self.pick(["", "<", "<b>", "</a>", "&", '"', "&amp;", "<!--", "&#60;", "'"]) + self.plain(0, 2)

    def int_text(self):
        ty = self.pick(list(INTTYPES))
        lo, hi = INTTYPES[ty]
        k = self.r.random()
        if k < 0.25:
            v = self.pick([lo, hi, 0, 1, 7, -1])
        elif k < 0.6:       # around the boundaries of other types
            v = (1 << self.pick([7, 8, 15, 16, 31, 32, 63, 64, 127])) + self.r.randint(-1, 1)
        elif k < 0.75:      # around the powers of ten
            v = 10 ** self.r.randint(1, 38) + self.r.randint(-1, 1)
        else:
            v = self.r.getrandbits(self.r.randint(1, 128))
        v = self.pick([v, -v])
        if not lo <= v <= hi:
            v = self.pick([min(hi, max(lo, v)), lo + v % (hi - lo + 1)])
        return {"x": cp(str(v)), "ty": ty}

    def value(self, env, special=True, none=False):
        k = self.r.random()
        if none and k < 0.12:
            return {"c": "none"}
        if k < 0.25 and env > 0:
            return {"c": "env", "d": self.r.randint(0, env - 1)}
        if k < 0.4:
            return dict(c="int", **self.int_text())
        return {"c": self.pick(["str", "value", "values", "valueref"]), "x": cp(self.ins_text(special))}

    def err(self):
        k = self.r.random()
        ident = lambda: self.pick([{"e": "Empty"}, {"e": "NotAscii"}, {"e": "Whitespace", "c": 32},
                                   {"e": "Forbidden", "c": self.pick([61, 60, 44])}])
        lim = lambda: {"e": "LengthLimitExceeded", "limit": self.r.randint(0, 99)}
        if k < 0.35:
            return {"e": "Identifier", "id": ident()}
        if k < 0.55:
            return {"e": "Input", "i": lim()}
        if k < 0.8:
            f = self.pick(["Open", "Read", "Decode", "Input"])
            return {"e": "File", "f": {"e": f, "i": lim()} if f == "Input" else {"e": f}}
        if k < 0.9:
            return {"e": "Selector", "s": {"e": self.pick(["Tag", "Id", "Class"]), "id": ident()}}
        return {"e": "StaticSelector", "s": self.pick([
            {"e": "Unrestricted"}, {"e": "Class", "index": self.r.randint(0, 4), "id": ident()}])}

    def fresh(self, prof):
        if not prof.get("log"):
            return 0
        self.next_id += 1
        return self.next_id

    def content(self, env, prof, depth=1):
        """Content to insert."""
        k = self.r.random()
        if prof.get("errors", 0) and self.chance(prof["errors"]):
            return self.bad_content(env, prof)
        if prof.get("streams", 0) and self.chance(prof["streams"]):
            return self.stream(prof)
        if prof.get("refs") and self.chance(0.5):
            return {"c": "tplref", "j": self.r.randrange(prof["refs"]), "w": self.pick(["own", "ref", "rc", "ok"])}
        special = prof.get("special", True)
        if k < 0.2 and env > 0:
            return {"c": "env", "d": self.r.randint(0, env - 1)}
        if k < 0.45:
            return {"c": self.pick(["str", "data", "datas", "dataref", "value", "values", "valueref", "datafrom"]),
                    "x": cp(self.ins_text(special))}
        if k < 0.52:
            return dict(c="int", **self.int_text())
        if k < 0.75:
            c = {"c": "tpl", "ev": self.parsed_doc(0, 3, rich=prof.get("rich", True), raw=prof.get("raw", True)),
                 "w": self.pick(["own", "ref", "rc", "ok", "okid"]), "parsed": self.chance(0.7)}
            return c
        if k < 0.82:
            return {"c": "elem", "x": cp(self.case(self.pick(self.NAMES + VOID))), "nk": self.pick(["static", "res", "own", "ref", "resstatic"])}
        if k < 0.9 and depth > 0:
            return {"c": "telem", "x": cp(self.case(self.pick(self.NAMES + VOID))), "id": self.fresh(prof),
                    "nk": self.pick(["static", "res", "own", "ref"]),
                    "p": self.prog(True, depth - 1, env + 1, dict(prof, tpl=0))[0]}
        if k < 0.95:
            src = self.source(self.parsed_doc(0, 3, raw=prof.get("raw", True), rich=prof.get("rich", True)))
            return {"c": "parse", "x": cp(src), "maxd": -1, "maxl": -1}
        if depth > 0:
            return {"c": "ok", "i": self.content(env, prof, depth - 1)}
        return {"c": "str", "x": cp("t")}

    def bad_content(self, env, prof):
        k = self.r.random()
        if k < 0.4:
            return {"c": "err", "err": self.err()}
        if k < 0.55:
            return {"c": "elem", "x": cp(self.bad_name())}
        if k < 0.75:
            src = self.mutate(self.source(self.parsed_doc(0, 3)))
            c = {"c": "parse", "x": cp(src), "maxd": -1, "maxl": -1}
            if self.chance(0.3):
                c["maxl"] = self.r.randint(0, 6)
            if self.chance(0.3):
                c["maxd"] = self.r.randint(0, 1)
            return c
        if k < 0.85:
            return {"c": "ok", "i": {"c": "err", "err": self.err()}}
        return {"c": "stream", "ev": self.parsed_doc(0, 2), "err": self.err(), "id": self.fresh(prof)}

    def stream(self, prof):
        d = self.parsed_doc(0, 4, rich=prof.get("rich", True), raw=prof.get("raw", True))
        if prof.get("malformed") and self.chance(prof["malformed"]):
            d = [e for e in self.unnest([e for e in d if e["k"] != "raw"])
                 if not (e["k"] in ("open", "close") and "".join(map(chr, e["t"])).lower() in VOID)]
            if self.chance(0.2):
                d.insert(self.r.randint(0, len(d)), ev("noop"))
        return {"c": "stream", "ev": d, "err": {"e": "none"} if not (prof.get("errors") and self.chance(0.15)) else self.err(),
                "id": self.fresh(prof)}

    # ------------------------------------------------------------ programs
    def attr_op(self, env, prof):
        o = self.pick(prof.get("attr_ops", ATTR_OPS))
        op = {"o": o}
        if o == "rmid":
            return op
        bad = prof.get("badnames", 0) and self.chance(prof["badnames"])
        if o in ("addclass", "rmclass"):
            name = self.case(self.word(), 0.3)
        elif o == "setid":
            name = self.case(self.pick(self.IDS), 0.3)
        else:
            name = self.case(self.pick(self.ATTRS), 0.3)
        op["name"] = cp(self.bad_name() if bad else name)
        op["nk"] = self.pick(["static", "static", "res", "resstatic", "own", "ref"])
        if o in ("addattr", "setattr"):
            op["val"] = self.value(env, prof.get("special", True), none=True)
            op["opt"] = self.chance(0.4)
        elif o == "replattr":
            op["val"] = self.value(env, prof.get("special", True))
        elif o == "addto":
            op["val"] = self.value(env, prof.get("special", True))
            op["sep"] = self.value(env, prof.get("special", True)) if self.chance(0.5) else \
                {"c": "str", "x": cp(self.pick(["", " ", ",", "; "]))}
        return op

    def items(self):
        return [self.r.randint(-9, 99) for _ in range(self.pick([0, 1, 1, 2, 2, 3]))]

    def prog(self, elem, depth, env, prof, lo=0, hi=None):
        """A program for a stream (or element): (ops, is the result an element)."""
        hi = prof.get("ops", 2) if hi is None else hi
        out = []
        for _ in range(self.r.randint(lo, hi)):
            o, elem = self.op(elem, depth, env, prof)
            out.append(o)
        return out, elem

    def op(self, elem, depth, env, prof):
        w = dict(sel=4, sub=2, subc=1, remove=1, prepend=1.5, append=1.5, replace=1, removec=1, prependc=1.5,
                 appendc=1.5, replacec=1.2, repeat=0.8, repeatelse=0.6, repeatc=0.8, repeatcelse=0.5,
                 attr=3, apply=0.4, box=0.4, boxel=0.4, ifs=0.4, ifelse=0.4, opt=0.4, res=0.4, tpl=0.5)
        w.update(prof.get("w", {}))
        if depth <= 0:
            for k in ("sel", "sub", "subc", "repeat", "repeatelse", "repeatc", "repeatcelse", "apply", "box", "boxel",
                      "ifs", "ifelse", "opt", "res", "tpl"):
                w[k] = 0
        if not elem:
            for k in ("sub", "subc", "removec", "prependc", "appendc", "replacec", "repeatc", "repeatcelse", "attr", "boxel"):
                w[k] = 0
        if prof.get("tpl", 1) == 0:
            w["tpl"] = 0
        if not any(w.values()):
            w["append"] = 1
        kinds = [k for k in w if w[k] > 0]
        k = self.r.choices(kinds, [w[x] for x in kinds])[0]
        P = lambda e, en=env, hi=None: self.prog(e, depth - 1, en, prof, 0, hi)
        C = lambda: self.content(env, prof)
        fid = self.fresh(prof)
        if k in ("sel", "sub"):
            p, _ = P(True, env + 1)
            bad = prof.get("badsel", 0)
            s = self.sel(bad, names=prof.get("names"))
            if self.chance(prof.get("custom", 0.03)):
                # a selector of the user's, which may match what is no element where that is asked for
                ks = ["open", "self", "void"]
                if self.chance(prof.get("malformed", 0)):
                    ks += ["data", "comment", "close", "raw", "doctype"]
                s = {"s": "custom", "ks": self.r.sample(ks, self.r.randint(1, min(3, len(ks))))}
                if self.chance(0.4):
                    # it never sees a noop, whatever was inserted
                    s["ks"].append("noop")
            return {"o": "sel", "direct": self.chance(0.35), "once": self.chance(0.35), "sub": k == "sub",
                    "sel": s, "p": p, "id": fid}, k == "sub"
        if k == "subc":
            return {"o": "subc", "p": P(False)[0], "id": fid}, True
        if k == "remove":
            return {"o": k}, False
        if k in ("prepend", "append", "replace"):
            return {"o": k, "c": C()}, False
        if k == "removec":
            return {"o": k}, True
        if k in ("prependc", "appendc", "replacec"):
            return {"o": k, "c": C()}, True
        if k in ("repeat", "repeatelse"):
            o = {"o": k, "items": self.items(), "hint": self.r.randrange(9), "p": P(elem, env + 1)[0], "id": fid}
            if k == "repeatelse":
                o["q"] = P(elem)[0]
            return o, False
        if k in ("repeatc", "repeatcelse"):
            o = {"o": k, "items": self.items(), "hint": self.r.randrange(9), "p": P(False, env + 1)[0], "id": fid}
            if k == "repeatcelse":
                o["q"] = P(True)[0]
            return o, k == "repeatc"
        if k == "attr":
            return self.attr_op(env, prof), True
        if k in ("apply", "boxel"):
            p, e = P(elem)
            return {"o": k, "p": p, "id": fid}, e
        if k == "box":
            return {"o": k, "p": P(False)[0], "id": fid}, False
        if k == "ifs":
            p, e = P(elem)
            return {"o": "if", "b": self.chance(0.6), "p": p, "id": fid}, elem and e
        if k == "ifelse":
            (p, e), (q, f) = P(elem), P(elem)
            return {"o": k, "b": self.chance(0.5), "p": p, "q": q, "id": fid}, elem and e and f
        if k == "opt":
            (p, e), (q, f) = P(elem, env + 1), P(elem)
            b = self.chance(0.5)
            if not b:
                pass
            return {"o": k, "b": b, "v": self.r.randint(-5, 50), "p": p, "q": q, "id": fid}, elem and e and f
        if k == "res":
            (p, e), (q, f) = P(elem, env + 1), P(elem, env + 1)
            return {"o": k, "b": self.chance(0.5), "v": self.r.randint(-5, 50), "p": p, "q": q, "id": fid}, elem and e and f
        if k == "tpl":
            f = self.pick(["id", "run", "run", "const"] + (["err"] if prof.get("errors") else []))
            o = {"o": "tpl", "f": f, "id": fid}
            if f == "run":
                o["p"] = P(False)[0]
            elif f == "const":
                o["c"] = self.content(env, dict(prof, streams=0, log=0))
            elif f == "err":
                o["err"] = self.err()
            return o, False
        raise AssertionError(k)

    def trans_case(self, prof, v=None):
        self.family(0.2)
        self.next_id = 0
        lo, hi = prof.get("doc", (1, 8))
        d = self.parsed_doc(lo, hi, names=prof.get("names"), rich=prof.get("rich", True), raw=prof.get("raw", True))
        p, _ = self.prog(False, prof.get("depth", 2), 0, prof, prof.get("oplo", 1))
        if self.chance(prof.get("echo", 0.1)):
            self.echo(p, d)
        if self.chance(0.35):
            self.aim(p, d)
        c = {"k": "trans", "doc": d, "parsed": self.chance(0.8), "prog": p}
        if prof.get("re"):
            c["re"] = True
        if prof.get("twice"):
            c["twice"] = True
        return c

    def aim(self, prog, d):
        """Some attribute operations of the program use what an attribute of the document has already."""
        plain = lambda x: re.fullmatch("[A-Za-z][A-Za-z0-9-]*", "".join(map(chr, x)))
        elements = [e for e in d if any(a["h"] for a in e["a"])]
        if not elements:
            return

        def op(j, known):
            if j["o"] in ("addclass", "rmclass", "setid"):
                name = "id" if j["o"] == "setid" else "class"
                ws = [w for a in known if "".join(map(chr, a["n"])).lower() == name
                      for v in ["".join(map(chr, a["v"]))] for w in [v] + v.split() if plain(cp(w))]
                if ws:
                    j["name"] = cp(self.pick(ws))
                return
            a = self.pick(known)
            if not plain(a["n"]):
                return
            j["name"] = cp(self.case("".join(map(chr, a["n"])), 0.2))
            for k in ("sep", "val"):
                if isinstance(j.get(k), dict) and j[k].get("c") in ("str", "value", "values", "valueref") and self.chance(0.7):
                    v = "".join(map(chr, self.pick([a, a, self.pick(known)])["v"]))
                    if self.chance(0.5):
                        for x, y in (("&lt;", "<"), ("&quot;", '"'), ("&amp;", "&")):
                            v = v.replace(x, y)
                    if v and len(v) < 60 and self.chance(0.15):
                        n = self.pick([70, 130, 255, 300]) // len(v) + 1
                        a["v"], v = a["v"] * n, v * n
                        if j["o"] == "addto" and k == "val" and j["sep"].get("c") == "str" and self.chance(0.6):
                            j["sep"]["x"] = cp(self.pick([";", ";", ",", "&", " ", "-", "<", "|", "\n", ":", "/"]))
                            j["name"] = list(a["n"])
                    elif self.chance(0.2):
                        v = self.pick([v + v, v[:len(v) // 2], v + " ", v.swapcase()])
                    j[k]["x"] = cp(v)
            if j["o"] == "addto" and j["sep"].get("c") == "str" and self.chance(0.4):
                j["sep"]["x"] = []

        def walk(j, known):
            if isinstance(j, list):
                for v in j:
                    walk(v, known)
            if not isinstance(j, dict):
                return
            if j.get("o") == "sel" and j["sel"].get("s") in ("static", "tag") and self.chance(0.5) and \
                    any(isinstance(o, dict) and o.get("o") in ATTR_OPS for o in j["p"]):
                e = self.pick(elements)
                if plain(e["t"]):
                    j["sel"]["x"] = list(e["t"])
                    known = [a for a in e["a"] if a["h"]]
            for v in j.values():
                walk(v, known)
            if j.get("o") in ATTR_OPS and isinstance(j.get("name"), list) and self.chance(0.6):
                op(j, known)
        walk(prog, [a for e in elements for a in e["a"] if a["h"]])

    def echo(self, prog, d):
        """Makes a content of the program nearly the same as a part of the document."""
        found = []

        def walk(j):
            if isinstance(j, dict):
                if j.get("o") and isinstance(j.get("c"), dict) and j["o"] not in ATTR_OPS:
                    found.append(j)
                for v in j.values():
                    walk(v)
            elif isinstance(j, list):
                for v in j:
                    walk(v)
        walk(prog)
        if not found:
            where = [prog]
            for o in prog:
                if o["o"] == "sel":
                    where.append(o["p"])
            w = self.pick(where)
            o = {"o": "tpl", "f": "const", "id": 0}
            w.insert(self.r.randint(0, len(w)) if w is prog else len(w), o)
            found = [o]
        for o in found:
            if self.chance(0.3) and len(found) > 1:
                continue
            nodes = self.nodes(d)
            if nodes and self.chance(0.6):
                i, j = self.pick(nodes)
                part = d[i:j + 1]
                if self.chance(0.3) and part[0]["k"] == "open":
                    part = part[1:-1]
            else:
                part = d
            for _ in range(self.pick([0, 1, 1, 2])):
                part = self.relative(part)
            o["c"] = {"c": "tpl", "ev": copy.deepcopy([e for e in part if e["k"] != "doctype"])}

    # ------------------------------------------------------------ identifiers, text
    def near(self, x):
        """Another name which is nearly the same."""
        if not x:
            return "a"
        i = self.r.randrange(len(x))
        k = self.r.random()
        if k < 0.5:
            return x[:i] + chr(ord(x[i]) ^ self.pick([32, 32, 32, 1, 64])) + x[i + 1:]
        if k < 0.65:
            return x[:i] + x[i + 1:]
        if k < 0.8:
            return x[:i] + x[i] + x[i:]
        if k < 0.9:
            return x[::-1]
        return x + self.pick("a0-K")

    def ident_case(self):
        x = self.any_name()
        if self.chance(0.3):
            x = "".join(self.pick("aZ0@`[{_~^\x7f\x1a9]}|\\.!#$%()*+-:?") for _ in range(self.r.randint(1, 3)))
        y = self.pick([self.any_name(), x.swapcase(), x, x + "a", x[:-1], x.lower(), self.near(x), self.near(x), self.near(x)])
        if self.chance(0.1):
            x = self.pick(["K", "k", "ss", "i", "I", "\u212a", "\xdf", "\u0131", "\u0130"])
            y = self.pick(["K", "k", "ss", "i", "I", "\u212a", "\xdf", "\u0131", "\u0130"])
        return {"k": "ident", "x": cp(x), "y": cp(y)}

    def long_text_case(self):
        """A long text with something special near its end or a boundary."""
        n = self.pick([1000, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 70000]) + self.pick([0, 0, 0, -1, 1, 3])
        c = self.pick(["a", "a", "a", "\xe9", "\u20ac", "&", " "])
        x = cp(c) * (n if c == "a" else n // len(c.encode()) // (5 if c == "&" else 1))
        for _ in range(self.pick([0, 1, 1, 2])):
            x[self.pick([len(x), len(x), 0, self.r.randint(0, len(x)), max(0, len(x) - 4)]):0] = cp(self.pick(["<", "&", ">", '"', "\u20ac", "<b>"]))
        if self.chance(0.7):
            x += cp(self.pick(["<", "&", ">", '"']))
        return {"k": "text", "x": x}

    def int_cases(self):
        """Integers of every type around the boundaries of all types, as contents and as values."""
        around = {0, 7, -7} | {b + d for k in (7, 8, 15, 16, 31, 32, 63, 64) for b in (1 << k, -(1 << k)) for d in (-1, 0, 1)} \
            | {b + d for k in (1, 2, 3, 9, 10, 18, 19) for b in (10 ** k, -10 ** k) for d in (-1, 0)}
        out = []
        for ty, (lo, hi) in INTTYPES.items():
            all = sorted({v for v in around if lo <= v <= hi} | {lo, hi, 0, 1} | {max(lo, -1)})
            self.r.shuffle(all)
            for i in range(0, len(all), 8):
                vals = [{"c": "int", "x": cp(str(v)), "ty": ty} for v in all[i:i + 8]]
                names = [{"name": cp("n%d" % j), "nk": "static"} for j in range(8)]
                sep = {"c": "str", "x": cp(" ")}
                p = [{"o": "appendc", "c": v} for v in vals] + [dict({"o": "setattr", "val": v, "opt": False}, **n) for v, n in zip(vals, names)] \
                    + [dict({"o": "addto", "val": v, "sep": sep}, **names[0]) for v in vals] + [{"o": "append", "c": v} for v in vals[:3]]
                doc = [{"k": "open", "t": cp("a"), "a": [], "x": []}, {"k": "close", "t": cp("a"), "a": [], "x": []}]
                out.append({"k": "trans", "doc": doc, "parsed": True,
                            "prog": [{"o": "sel", "sel": {"s": "static", "x": cp("a")}, "p": p, "id": 0, "once": False, "direct": False, "sub": False}]})
        return out

    COUNTS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025]

    def one(self, attrs, *ops):
        """Operations on the only element of a document."""
        k = self.pick(["open", "open", "self", "void"])
        doc = [{"k": k, "t": cp("br" if k == "void" else "a"), "a": attrs, "x": []}] + ([{"k": "close", "t": cp("a"), "a": [], "x": []}] if k == "open" else [])
        return {"k": "trans", "doc": doc, "parsed": True,
                "prog": [{"o": "sel", "sel": {"s": "static", "x": cp("br" if k == "void" else "a")}, "p": list(ops), "id": 0, "once": False, "direct": False, "sub": False}]}

    def join_cases(self, times=4):
        """Values of all sizes, with all kinds of things at the seam, joined."""
        out = []
        ends = ["", ";", ";", " ", "&", "<", ">", "-", "=", "'", "\xe9", "\u20ac", "x", "amp;", "lt;", "&lt;", "\n", "0", ",", ", ", "; ", "x;", ";;"]
        piece = lambda c: {"c": self.pick(["str", "str", "value", "values", "valueref"]), "x": cp(c)}
        for n in self.COUNTS * times:
            old = self.pick(["a", "a", "ab ", "\xe9"]) * n
            old = old[:n - 1] + self.pick(ends[:14]).replace("<", "&lt;")[:1] if n and self.chance(0.4) else old[:n]
            name = self.pick(["t", "t", "class", "style"])
            new = self.pick(ends) if self.chance(0.8) else self.pick(ends) + "b" * self.pick(self.COUNTS) + self.pick(ends)
            ops = [{"o": "addto", "name": cp(name), "nk": "static", "val": piece(new), "sep": piece(self.pick(ends))} for _ in range(self.pick([1, 1, 2]))]
            if self.chance(0.2):
                ops.append({"o": "addclass", "name": cp(self.pick(["k", "l" * self.pick(self.COUNTS[1:])])), "nk": "static"})
            out.append(self.one([attr(name, old)] + self.attrs(self.pick([0, 0, 1])), *ops))
        return out

    def crowd_cases(self, ops, times=1):
        """Elements with any number of attributes or classes, and each operation on one of them, or another."""
        out = []
        for n in [n for n in self.COUNTS if n < 600] * times:
            for o in ops:
                classes = o in ("addclass", "rmclass")
                at = self.pick([0, n // 2, n - 1, n - 2, n, self.r.randint(0, n)])
                names = ["%s%d" % (self.pick(["x", "data-", "y"]), i) for i in range(n)]
                name = names[at] if 0 <= at < n else "z"
                if self.chance(0.3) and n:
                    # once more
                    names.insert(self.r.randint(0, n), self.case(name if name in names else names[0], 0.5))
                if classes:
                    attrs = [attr("class", self.pick([" ", "  ", "\n"]).join(names))]
                    if n and self.chance(0.3):
                        k = self.r.randint(0, n)
                        attrs = [attr("class", " ".join(names[:k])), attr("t", "x"), attr("class", " ".join(names[k:]))]
                else:
                    attrs = [attr(x, self.pick([None, "", "v", "w"])) for x in names]
                    if o in ("setid", "rmid") and self.chance(0.8):
                        attrs[max(at, 0):max(at, 0)] = [attr(self.case("id", 0.2), "i")]
                op = {"o": o}
                if o != "rmid":
                    op["name"], op["nk"] = cp(self.case(name, 0.3)), self.pick(["static", "res", "own"])
                if o in ("addattr", "setattr", "replattr", "addto"):
                    op["val"] = {"c": "str", "x": cp(self.pick(["", "n", "m\""]))}
                    op["opt"] = False
                if o == "replattr":
                    del op["opt"]
                if o == "addto":
                    del op["opt"]
                    op["sep"] = {"c": "str", "x": cp(self.pick(["", " "]))}
                out.append(self.one(attrs, op))
        return out

    def text_case(self):
        return {"k": "text", "x": cp("".join(self.ins_text(True) for _ in range(self.r.randint(0, 3))))}

    # ------------------------------------------------------------ histories
    def hist_case(self, lo=3, hi=9):
        self.next_id = 0
        prof = dict(ops=2, depth=2, doc=(0, 5))
        steps, n = [], 0
        for _ in range(self.r.randint(lo, hi)):
            k = self.r.random()
            if n == 0 or k < 0.2:
                bad = self.chance(0.1)
                x = "</a>" if bad else self.source(self.parsed_doc(0, 5))
                if not bad and n and self.chance(0.15):
                    x = self.pick(["<A T=1>".replace("=1", '="1"') + "</A>", '<a t="1"></a>', "<a t></a>", "<a T></a>", "<a/>", "<A />"])
                steps.append({"s": "parse", "x": cp(x)})
                n += 0 if bad else 1
            elif k < 0.27:
                steps.append({"s": "elem", "x": cp(self.case(self.pick(self.NAMES + VOID)))})
                n += 1
            elif k < 0.34:
                steps.append({"s": "telem", "x": cp(self.case(self.pick(self.NAMES))), "nk": self.pick(["static", "res", "own", "ref"]),
                              "p": self.prog(True, 1, 1, dict(prof, refs=n, tpl=0))[0], "id": 0})
                n += 1
            elif k < 0.45:
                steps.append({"s": self.pick(["clone", "clone", "reparse"]), "i": self.r.randrange(n)})
                n += 1
                if steps[-1]["s"] == "reparse" and not self.reparse_ok:
                    steps[-1]["s"] = "clone"
            elif k < 0.52 and n > 1:
                i, j = self.r.sample(range(n), 2)
                steps.append({"s": "drop", "i": i, "j": j})
            else:
                p = self.prog(False, self.pick([1, 2]), 0, dict(prof, refs=n), 1)[0]
                i = self.r.randrange(n)
                steps.append({"s": "trans", "i": i, "prog": p})
                n += 1
                if self.chance(0.25):
                    # once more the same
                    steps.append({"s": "trans", "i": i, "prog": p})
                    n += 1
                if self.chance(0.1):
                    # fails after part of the work
                    steps.append({"s": "trans", "i": i, "prog": p + [{"o": "append", "c": {"c": "err", "err": self.err()}}]})
            if n > 7:
                break
        return {"k": "hist", "steps": steps}

    def relative(self, d):
        """The document with one or two details changed (or only written in another way)."""
        d = [dict(e, a=[dict(a) for a in e["a"]]) for e in d]
        for _ in range(self.pick([1, 1, 1, 2])):
            tags = [e for e in d if e["k"] in ("open", "self", "void")]
            some = [e for e in tags if e["a"]]
            text = [e for e in d if e["k"] in ("data", "raw", "comment") and e["x"]]
            k = self.r.random()
            if k < 0.3 and some:
                e = self.pick(some)
                a = self.pick(e["a"])
                j = self.r.random()
                if j < 0.3:
                    self.r.shuffle(e["a"])
                elif j < 0.4:
                    a["n"] = [c ^ 32 if chr(c).isalpha() and c < 128 else c for c in a["n"]]
                elif j < 0.45:
                    a["v"] = [c ^ 32 if c < 128 and chr(c).isalpha() else c for c in a["v"]]
                elif j < 0.5 and a["v"]:
                    i = self.r.randrange(len(a["v"]))
                    a["v"] = a["v"][:i] + [ord("y") if a["v"][i] == ord("x") else ord("x")] + a["v"][i + 1:]
                elif j < 0.6:
                    a["v"] = a["v"] + cp(self.pick([" ", "x", "\n"])) if a["h"] else []
                elif j < 0.7:
                    a["h"] = not a["h"]
                    a["v"] = []
                elif j < 0.8:
                    e["a"].remove(a)
                elif j < 0.9:
                    e["a"].insert(self.r.randint(0, len(e["a"])), dict(a))
                else:
                    b = self.pick(e["a"])
                    a["v"], b["v"], a["h"], b["h"] = b["v"], a["v"], b["h"], a["h"]
            elif k < 0.4 and tags:
                e = self.pick(tags)
                e["a"].insert(self.r.randint(0, len(e["a"])), self.attrs(1)[0])
            elif k < 0.5 and tags:
                e = self.pick(tags)
                if e["k"] == "void":
                    e["t"] = cp(self.pick(VOID))
                elif e["k"] == "self":
                    i = [j for j in range(len(d)) if d[j] is e][0]
                    d[i:i + 1] = [dict(e, k="open"), ev("close", e["t"])]
                elif e["k"] == "open":
                    i = [j for j in range(len(d)) if d[j] is e][0]
                    if d[i + 1]["k"] == "close":
                        d[i:i + 2] = [dict(e, k="self")]
            elif k < 0.6:
                for e in d:
                    if e["t"] and self.chance(0.5):
                        e["t"] = cp(self.case("".join(map(chr, e["t"])), 1))
            elif k < 0.8 and text:
                e = self.pick(text)
                j = self.r.randint(0, len(e["x"]))
                if self.chance(0.3) and j < len(e["x"]):
                    e["x"] = e["x"][:j] + [ord("y") if e["x"][j] == ord("x") else ord("x")] + e["x"][j + 1:]
                elif self.chance(0.4):
                    e["x"] = [c ^ 32 if c < 128 and chr(c).isalpha() else c for c in e["x"]]
                elif len(e["x"]) > 1 and self.chance(0.5):
                    e["x"] = e["x"][:j] + e["x"][j + 1:] or e["x"]
                else:
                    e["x"] = e["x"][:j] + cp(self.pick([" ", "x", "\n", "\u20ac"])) + e["x"][j:]
            elif k < 0.9 and d:
                i = self.r.randint(0, len(d))
                if i < len(d) and d[i]["k"] in ("void", "comment", "self"):
                    if self.chance(0.5):
                        d.insert(i, dict(d[i]))
                    else:
                        del d[i]
            elif len(d) > 1:
                i = self.r.randrange(len(d) - 1)
                leaf = ("data", "comment", "void", "self")
                if d[i]["k"] in leaf and d[i + 1]["k"] in leaf:
                    d[i], d[i + 1] = d[i + 1], d[i]
        return d

    def long_hist_case(self):
        """Something that has been done very often before."""
        self.next_id = 0
        prof = dict(ops=2, depth=2, doc=(0, 5), refs=1)
        d = self.parsed_doc(1, 4)
        p = self.prog(False, 1, 0, prof, 1)[0]
        bad = self.pick([
            {"s": "trans", "i": 0, "prog": [{"o": "append", "c": {"c": "err", "err": self.err()}}]},
            {"s": "trans", "i": 0, "prog": p + [{"o": "prepend", "c": {"c": "err", "err": self.err()}}]},
            {"s": "parse", "x": cp(self.pick(["</a>", "<a>", "<a b='c'>", "x<!--"]))},
        ])
        steps = [{"s": "parse", "x": cp(self.source(d))}] + [copy.deepcopy(bad) for _ in range(self.pick([70, 130, 210, 260]))]
        steps += [{"s": "trans", "i": 0, "prog": p}, {"s": "parse", "x": cp(self.source(d))}, {"s": "trans", "i": 0, "prog": [{"o": "append", "c": {"c": "str", "x": cp("x<")}}]}]
        return {"k": "hist", "steps": steps}

    def deep_parse_cases(self):
        """Documents nested deep, with a fault at the bottom, at the top or in between, or none."""
        out = []
        for n in [1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513]:
            for f in ("", "<b></c>", "</c>", "<b>", "<b></B>", "<br></br>", "<c/>", "<b><c></b>"):
                names = ["a"] * n if self.chance(0.5) else [self.pick(["a", "b", "li"]) for _ in range(n)]
                up = self.pick([n, n, n, self.r.randint(0, n)])
                x = "".join("<%s>" % m for m in names) + "".join("</%s>" % m for m in names[:up - 1:-1] if up < n) + f + "".join("</%s>" % m for m in names[:up][::-1])
                out.append({"k": "parse", "x": cp(x), "maxd": -1, "maxl": -1})
        return out

    def crowd_sel_cases(self):
        """Selectors for one of any number of classes, ids or attributes."""
        out = []
        for n in [n for n in self.COUNTS if 0 < n < 600]:
            names = ["c%d" % i for i in range(n)]
            for at in {0, n // 2, n - 1, n}:
                w = self.pick(["class", "class", "id"])
                x = self.case("c%d" % at, 0.2)
                if w == "class":
                    k = self.pick([n, n, self.r.randint(0, n)])
                    attrs = [attr("class", " ".join(names[:k]))] + ([attr("class", " ".join(names[k:]))] if k < n else [])
                else:
                    attrs = [attr("id", m) for m in names]
                if self.chance(0.2):
                    attrs[0:0] = [attr("t%d" % i, "x") for i in range(self.pick([10, 70, 270]))]
                doc = [{"k": "self", "t": cp("a"), "a": attrs, "x": []}]
                s = {"s": w, "x": cp(x)} if self.chance(0.5) else {"s": "static", "x": cp({"class": ".", "id": "#"}[w] + x)}
                if w == "class" and self.chance(0.3):
                    s = {"s": "classes", "xs": [cp(x)] + [cp(self.pick(names)) for _ in range(self.pick([1, 2, 20]))]}
                out.append({"k": "sel", "doc": doc, "parsed": True, "sel": s})
        return out

    def void_repeat_cases(self):
        """Rows of steps without any output, and what follows behind them."""
        out = []
        el = lambda t, *c: [ev("open", t)] + list(c) + [ev("close", t)]
        sel = lambda t, *p: {"o": "sel", "sel": {"s": "static", "x": cp(t)}, "p": list(p), "id": 0, "once": False, "direct": False, "sub": False}
        some = lambda n: {"items": [self.r.randint(0, 9) for _ in range(n)]}
        mark = lambda o: {"o": o, "c": {"c": "str", "x": cp("!")}}
        for n in [0, 1, 7, 15, 31, 33, 63, 65, 70, 127, 130, 257]:
            gone = [{"o": "remove"}]
            doc = self.pick([el("a"), el("a", ev("data", x="x"))]) + self.pick([[], el("b"), [ev("data", x="z")], [ev("comment", x="z")]])
            for p in ([sel("a", dict(o="repeat", p=gone, id=0, **some(n)))],
                      [sel("a", dict(o="repeatc", p=self.pick([[], gone]), id=0, **some(n)))],
                      [sel("a", dict(o="repeatc", p=gone, id=0, **some(n)), mark("appendc"))],
                      [dict(o="repeat", p=[{"o": "remove"}], id=0, **some(n)), mark("append")]):
                p = copy.deepcopy(p) + self.pick([[], [sel("b", {"o": "setid", "name": cp("i"), "nk": "static"})], [mark("append")], [sel("b", mark("replacec"))]])
                out.append({"k": "trans", "doc": doc, "parsed": True, "prog": p})
        return out

    def kin_case(self):
        """Templates which differ in little, compared with each other."""
        d = []
        while not d:
            d = self.parsed_doc(1, 4)
            if not any(e["a"] for e in d) and self.chance(0.7):
                d = []
        if self.chance(0.15):
            # an element without text, where the text is not markup
            t = self.pick(["script", "STYLE", "title", "textarea"])
            d[0:0] = [ev("open", t, self.attrs(1) if self.chance(0.3) else ()), ev("raw", x=""), ev("close", t)]
            for e in d[3:]:
                if e["k"] == "raw" and self.chance(0.5):
                    e["x"] = []
        long = self.chance(0.06)
        if long:
            # a long text, with a difference anywhere
            texts = [e for e in d if e["k"] in ("data", "raw", "comment") and len(e["x"]) > 1]
            texts = texts or [a for e in d for a in e["a"] if a["h"]]
            if texts:
                x = self.pick(texts)
                k = "x" if "x" in x else "v"
                x[k] = (x[k] or cp("v"))
                most = [20, 70, 140, 300] if k == "v" or set(x[k]) & set(cp("<-")) else [20, 70, 140, 300, 1100, 2100, 4200, 6000]
                x[k] = x[k] * (self.pick(most) // len(x[k]) + 1)
        steps = [{"s": "parse", "x": cp(self.source(d))}]
        for _ in range(self.r.randint(2, 5)):
            d2 = self.relative(d)
            if long and texts and self.chance(0.7):
                d2 = copy.deepcopy(d)
                same = [y for e in d2 for y in [e] + e["a"] if y.get(k) == x[k] and len(x[k]) > 0]
                if same:
                    i = self.pick([0, len(x[k]) - 1, len(x[k]) // 2, self.r.randrange(len(x[k])), self.r.randrange(len(x[k]))])
                    same[0][k] = x[k][:i] + [ord("y") if x[k][i] == ord("x") else ord("x")] + x[k][i + 1:]
            steps.append({"s": "parse", "x": cp(self.source(d2))})
            if self.chance(0.4) and not long:
                d = d2
        n = len(steps)
        if self.chance(0.3):
            steps.append({"s": "trans", "i": self.r.randrange(n), "prog": self.prog(False, 1, 0, dict(ops=1, depth=1, tpl=0), 1)[0]})
        for _ in range(self.pick([0, 0, 1, 2, 3])):
            steps.append({"s": "trans", "i": self.r.randrange(n), "prog": self.slight(self.pick(steps[:n])["x"])})
        if self.chance(0.2):
            steps.append({"s": "clone", "i": self.r.randrange(n)})
        return {"k": "hist", "steps": steps}

    def slight(self, x):
        """A program which changes little, or nothing, or only how something is represented."""
        every = {"s": "custom", "ks": self.pick([["open", "self", "void"], ["open", "self", "void"], ["open"], ["self"], ["void"]])}
        if self.chance(0.3):
            every["ks"] = every["ks"] + ["noop"]
        e = lambda t="": {"c": self.pick(["str", "data", "value"]), "x": cp(t)}
        v = lambda: {"c": "str", "x": []}
        inner = self.pick([
            [{"o": "removec"}], [{"o": "appendc", "c": e()}], [{"o": "prependc", "c": e()}], [{"o": "replacec", "c": e()}],
            [{"o": "appendc", "c": {"c": "tpl", "ev": []}}], [{"o": "replacec", "c": {"c": "tpl", "ev": []}}],
            [{"o": "appendc", "c": e("x")}, {"o": "appendc", "c": e("y")}], [{"o": "appendc", "c": e("xy")}], [{"o": "replacec", "c": e("xy")}],
            [{"o": "setattr", "name": cp("t"), "val": v(), "opt": True}], [{"o": "addattr", "name": cp("t"), "val": v()}],
            [{"o": "addclass", "name": cp("k")}], [{"o": "addclass", "name": cp("k")}, {"o": "addclass", "name": cp("k")}],
            [{"o": "setid", "name": cp("i")}], [{"o": "rmattr", "name": cp("t")}], [{"o": "rmattr", "name": cp("id")}],
            [{"o": "append", "c": e()}], [{"o": "prepend", "c": e("x")}], [{"o": "append", "c": e("x")}], [],
            [{"o": "replace", "c": {"c": "tpl", "ev": self.relative(self.parsed_doc(0, 2))}}],
            [{"o": "repeat", "items": self.pick([[], [1], [1, 2]]), "p": [], "id": 0}],
        ])
        whole = self.pick([
            [{"o": "append", "c": e()}], [{"o": "prepend", "c": e()}], [{"o": "append", "c": {"c": "tpl", "ev": []}}], [],
            [{"o": "append", "c": e("x")}, {"o": "append", "c": e("y")}], [{"o": "append", "c": e("xy")}],
            [{"o": "tpl", "f": "id", "id": 0}], [{"o": "replace", "c": e()}], [{"o": "remove"}], [{"o": "replace", "c": {"c": "parse", "x": list(x), "maxd": -1, "maxl": -1}}],
            [{"o": "repeat", "items": self.pick([[], [1], [1, 2]]), "p": [], "id": 0}],
        ])
        if self.chance(0.4):
            return whole
        return [{"o": "sel", "direct": self.chance(0.3), "once": self.chance(0.3), "sub": False,
                 "sel": every if self.chance(0.7) else self.sel(), "p": inner, "id": 0}]

    def wrapped(self, prog):
        """The same program with parts of it in wrappers which make no difference, or with steps which do nothing."""
        prog = copy.deepcopy(prog)
        places = [prog]

        def walk(p):
            for o in p:
                for f in ("p", "q"):
                    if isinstance(o.get(f), list):
                        places.append(o[f])
                        walk(o[f])
        walk(prog)
        junk = lambda: self.prog(False, 1, 0, dict(ops=2, depth=1, tpl=0), 1)[0]
        for _ in range(self.pick([1, 1, 2, 3])):
            k = self.r.random()
            if k < 0.5:
                # a part of the outermost chain in something
                i = self.r.randint(0, len(prog))
                j = self.r.randint(i, len(prog))
                part = prog[i:j]
                prog[i:j] = [self.pick([
                    {"o": "apply", "p": part, "id": 0}, {"o": "box", "p": part, "id": 0}, {"o": "if", "b": True, "p": part, "id": 0},
                    {"o": "ifelse", "b": True, "p": part, "q": junk(), "id": 0}, {"o": "ifelse", "b": False, "p": junk(), "q": part, "id": 0},
                    {"o": "opt", "b": False, "v": 1, "p": junk(), "q": part, "id": 0}])]
            else:
                w = self.pick([p for p in places if p is prog or p])
                o = self.pick([{"o": "if", "b": False, "p": junk(), "id": 0}, {"o": "tpl", "f": "id", "id": 0}, {"o": "apply", "p": [], "id": 0},
                               {"o": "box", "p": [], "id": 0}, {"o": "ifelse", "b": False, "p": junk(), "q": [], "id": 0}])
                if w is prog:
                    w.insert(self.r.randint(0, len(w)), o)
                else:
                    w.append(o)
        return prog

    def wrapped_case(self):
        """A program and the same one in wrappers, on the same template: the results are equal."""
        self.next_id = 0
        prof = dict(depth=2, ops=2, tpl=0)
        if self.chance(0.5):
            prof["w"] = dict(repeat=3, repeatc=2, sel=4, box=0, apply=0)
        p = self.prog(False, self.pick([1, 2]), 0, prof, 1)[0]
        steps = [{"s": "parse", "x": cp(self.source(self.parsed_doc(1, 7)))}, {"s": "trans", "i": 0, "prog": p}]
        for _ in range(self.pick([1, 2, 3])):
            steps.append({"s": "trans", "i": 0, "prog": self.wrapped(p)})
        return {"k": "hist", "steps": steps}

    reparse_ok = True

    # ------------------------------------------------------------ files
    BADBYTES = [[0x80], [0xc3], [0xe2, 0x82], [0xf0, 0x9f, 0x98], [0xc0, 0x80], [0xed, 0xa0, 0x80], [0xff], [0xf5, 0x80, 0x80, 0x80],
                [0xf4, 0x90, 0x80, 0x80], [0xe0, 0x80, 0x80], [0xfe]]

    PATHS = ["ref", "ref", "own", "str", "string", "os", "refref", "dots", "slash", "up", "link", "odd"]

    SYSTEM = ["/proc/sys/kernel/ostype", "/proc/version", "/proc/filesystems", "/proc/cmdline", "/dev/null", "/proc/self/comm", "/proc/sys/kernel/osrelease"]

    def file_case(self, big=False):
        if self.chance(0.03):
            # a file whose size is not known before it is read
            return {"k": "file", "mode": "system", "system": self.pick(self.SYSTEM), "bytes": [], "small": True,
                    "pathform": self.pick(["ref", "own", "str", "string", "os", "refref"]), "maxl": self.pick([-1, -1, -1, 0, 5, 6, 4000]), "maxd": -1}
        if self.chance(0.04):
            return {"k": "file", "mode": self.pick(["dir", "missing", "under", "nul"]), "bytes": [], "small": True,
                    "pathform": self.pick(self.PATHS), "maxl": self.pick([-1, -1, 5])}
        text = self.parse_case(self.pick(["valid", "valid", "bad"]), 4)["x"] if self.chance(0.75) else cp(self.limit_text())
        b = list("".join(map(chr, text)).encode("utf-8", "surrogatepass"))
        pieces = [{"b": b}]
        if self.chance(0.3):
            t = self.pick(["\xe9", "\u20ac", "\U0001f600", "<b>\u20ac</b>", "a", "\n", "<!--\U0001f600-->"])
            reps = self.pick([1, 3, 10]) if not big else \
                self.pick([8192, 4096, 16384, 65536, 1024, 2730]) // len(t.encode()) + self.r.randint(-2, 2)
            pieces.insert(self.r.randint(0, 1), {"b": list(t.encode()), "n": max(1, reps)})
            pieces.insert(0, {"b": [97] * self.r.randint(0, 4)})
        if self.chance(0.25):
            bad = list(self.pick(self.BADBYTES))
            if self.chance(0.5):
                pieces.append({"b": bad})
            else:
                i = self.r.randint(0, len(b))
                pieces[-1]["b"] = pieces[-1]["b"][:i] + bad + pieces[-1]["b"][i:]
        size = sum(len(p["b"]) * p.get("n", 1) for p in pieces)
        c = {"k": "file", "bytes": pieces, "mode": "file", "maxd": -1, "maxl": -1, "small": size <= 400,
             "pathform": self.pick(self.PATHS)}
        if self.chance(0.35):
            c["maxl"] = max(0, size + self.pick([0, 0, -1, 1, -2, -3, -size, -size // 2, 100]))
        if self.chance(0.1):
            c["maxd"] = self.r.randint(0, 2)
        if size and (self.chance(0.6) if not big else self.chance(0.3)):
            c["mode"] = "fifo"
            c["chunks"] = [self.pick([1, 1, 2, 3, 5, 7] if size < 1000 else [size // 3 + 1, 511, 4096, 8191, 8192, 8193, size])
                           for _ in range(self.r.randint(1, 6))]
        return c

    def limit_text(self):
        return self.deep(3)

    def big_limits(self, most=70000):
        """Limits around the depth and the size of large documents."""
        out = []
        for n in [50, 127, 128, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 10001, 16385, 32767, 32768, 65535, 65536, 65537, 70000, 200000]:
            if n > most:
                break
            for k in (-1, 0, 1, 2):
                pre, post = self.pick([("", ""), ("<c>", "</c>"), ("x\n<c/>", ""), ("<!--\n-->\xe9", "<b></b>"), ("<c k>\n<b><br>", "</b></c>")])
                extra = pre.count("<c>") + pre.count("<c k") + pre.count("<b>")
                unit = self.pick(["<a>", "<a>", "<a t=\"\n\">", "\n<LI>", "<a><b></b>", "x<a><br/>", "<a class=\"k\"><!-- -->"])
                parts = [(pre, 1), (unit, n), (self.pick(["x", "<i/>", "<br>", ""]), 1), ("</LI>" if "LI" in unit else "</a>", n), (post, 1)]
                deepest = n + extra + (1 if "<b>" in unit else 0)
                out.append({"k": "big", "parts": [{"x": cp(x), "n": m} for x, m in parts if x], "prog": [], "maxd": deepest - k, "maxl": -1,
                            "depth": deepest, "dn": True})
            d = self.pick([0, 1, 2])
            out.append({"k": "big", "parts": [{"x": cp(x), "n": m} for x, m in [("<c>", 1), (self.pick(["<a></a>", "<a>x</a><b></b>", "<br><a/><b></b>"]), n), ("</c>", 1)]],
                        "prog": [], "maxd": d, "maxl": -1, "depth": 2})
            unit = self.pick(["x", "\xe9", "<a/>", "\u20ac\n", "<a></a>", "\U0001f600"])
            size = len(unit.encode()) * n
            for k in (-1, 0, 1):
                out.append({"k": "big", "parts": [{"x": cp(unit), "n": n}], "prog": [], "maxd": -1, "maxl": size + k, "depth": 0})
            out.append({"k": "big", "parts": [{"x": cp(unit), "n": n}], "prog": [], "maxd": self.pick([-1, -2, -3, -4, -5, -6]),
                        "maxl": self.pick([-1, -2, -3, -4, -5, -6]), "depth": 0})
        return out

    # ------------------------------------------------------------ big inputs
    _TAG = lambda t, p, **kw: [dict({"o": "sel", "sel": {"s": "static", "x": cp(t)}, "direct": False, "once": False, "sub": False, "p": p, "id": 0}, **kw)]
    _MARK = [{"o": "appendc", "c": {"c": "str", "x": cp("!")}}]
    _SOME = [[], _TAG("a", _MARK), _TAG("a000002", [{"o": "remove"}]), _TAG("#i000001", _MARK), _TAG(".k000003", _MARK, once=True),
             _TAG("a", [{"o": "setattr", "name": cp("t000002"), "val": {"c": "str", "x": cp("<")}}]),
             _TAG("a", [{"o": "rmattr", "name": cp("t000002")}]), _TAG("a", [{"o": "addclass", "name": cp("k000002")}]),
             _TAG("a", [{"o": "rmclass", "name": cp("k000001")}]), _TAG("a", [{"o": "replattr", "name": cp("t000001"), "val": {"c": "str", "x": cp("")}}])]
    # Pieces with their own numbers, ascending (1) or descending (2), and programs for them.
    NUMBERED = [
        ([("<a", 0), (" t#", 1), ("></a>", 0)], _SOME, 0), ([("<a", 0), (" t#=\"#\"", 1), ("/>", 0)], _SOME, 0),
        ([("<a class=\"", 0), ("k# ", 1), ("\"></a>", 0)], _SOME, 0), ([("<a id=\"", 0), ("i# ", 2), ("\"></a>", 0)], _SOME, 0),
        ([("<a#></a#>", 1)], _SOME, 0), ([("<a#/>", 2)], _SOME, 0), ([("<a id=\"i#\">x</a>", 1)], _SOME, 0),
        ([("<a class=\"k# l\"></a>", 1)], _SOME, 0), ([("<a#>", 1), ("</a#>", 2)], _SOME, 1),
        ([("<a class=\"k#\">", 1), ("</a>", 2)], _SOME, 1), ([("<!--#-->", 1)], _SOME, 0), ([("<a>", 0), ("# ", 1), ("</a>", 0)], _SOME, 0),
        ([("<script>", 0), ("<a# ", 1), ("</script>", 0)], _SOME, 0), ([("<b#><a t#=\"#\"/></b#>", 2)], _SOME, 0),
        ([("<a#>", 1)], [[]], 0), ([("<b#></b#>", 1), ("</a#>", 1)], [[]], 0), ([("<a", 0), (" t#", 1), (" t=>", 0)], [[]], 0),
    ]

    def big_cases(self, size, faults=False):
        """Large inputs of every shape; `size` is about the number of bytes."""
        out = []

        def case(parts, prog=(), depth=0, **kw):
            n = None
            ps = []
            for x, many in parts:
                ps.append((x, many))
            unit = sum(len(x) for x, many in ps if many) or 1
            n = max(4, size // unit)
            out.append(dict({"k": "big", "parts": [{"x": cp(x), "n": n if many else 1} for x, many in ps],
                             "prog": list(prog), "maxd": -1, "maxl": -1, "depth": n if depth else 0, "dn": bool(depth)}, **kw))

        every = {"s": "custom", "ks": ["open", "self", "void"]}
        tag = lambda t: {"s": "tag", "x": cp(t)}
        sel = lambda s, p, **kw: dict({"o": "sel", "sel": s, "direct": False, "once": False, "sub": False, "p": p, "id": 0}, **kw)
        txt = lambda t: {"c": "str", "x": cp(t)}
        progs = [
            [], [sel(every, [{"o": "appendc", "c": txt("x")}])], [sel(tag("a"), [{"o": "remove"}])],
            [sel(tag("a"), [{"o": "prependc", "c": txt("&")}, {"o": "setattr", "name": cp("t"), "val": txt("<")}])],
            [sel(tag("a"), [sel(tag("b"), [{"o": "replace", "c": txt("y")}], sub=True)])],
            [sel(tag("zz"), [{"o": "remove"}]), {"o": "append", "c": txt("end")}],
            [sel(tag("a"), [{"o": "repeat", "items": [1, 2], "p": [{"o": "append", "c": {"c": "env", "d": 0}}], "id": 0}])],
            [{"o": "repeat", "items": [1, 2, 3], "p": [], "id": 0}],
            [sel(every, [{"o": "addclass", "name": cp("k")}, {"o": "rmclass", "name": cp("l")}])],
            [{"o": "tpl", "f": "id", "id": 0}, sel(tag("b"), [{"o": "tpl", "f": "run", "p": [{"o": "append", "c": txt("!")}], "id": 0}])],
            [sel(tag("a"), [], once=True), sel(tag("b"), [{"o": "replacec", "c": txt("z")}], direct=True)],
        ]
        many, one = True, False
        shapes = [
            [("<a>", many), ("</a>", many)], [("<b>x</b><a></a>", many)], [("<br>", many)], [("<a class=\"l k\" id=\"i\"/>", many)],
            [("x", many)], [("<a>", one), ("\xe9 ", many), ("</a>", one)], [("\n<a>\n", many), ("</a>", many)],
            [("<script>", one), ("<", many), ("</script>", one)], [("<title>", one), ("</titl", many), ("</title>", one)],
            [("<script>x</script>", many)], [("<!--x-->", many)], [("<!--", one), ("-", many), ("-->", one)],
            [("<!--", one), ("->", many), ("-->", one)], [("<a ", one), ("b ", many), ("></a>", one)],
            [("<a", one), (" c=\"\"", many), ("/>", one)], [("<a t=\"", one), ("&", many), ("\"></a>", one)],
            [("<a class=\"", one), ("l k ", many), ("\"></a>", one)], [("<a>", one), ("<a><b></b></a>", many), ("</a>", one)],
            [("<textarea>", one), ("</ textarea x", many), ("</textarea>", one)], [("<a>", one), (" ", many), ("</a>", one)],
            [("<", one), ("a", many), ("/>", one)], [("<a ", one), (" ", many), (">", one), ("</a>", one)],
            [("</", one), (" ", many), ("a>", one)],
            [("<a></a>", many)], [("<b><a/></b>", many)], [("<a>", one), ("<b></b>", many), ("</a>", one)],
        ]
        bad = [
            [("<a>", many)], [("<", many)], [("<a ", many)], [("<script>", one), ("<", many)], [("<script>", one), ("</", many)],
            [("<title>", one), ("</title", many)], [("<style>", one), ("</style ", many)], [("<style>", one), ("< ", many)],
            [("<!--", many)], [("<a b=\"", one), ("x", many)], [("<a>", many), ("</b>", one)], [("\n<a>", many)],
            [("<!doctype ", one), ("x", many)], [("<a", one), (" b", many)], [("<script>", one), ("</ ", many)],
            [("<textarea>", one), ("</textarea a ", many)], [("</a>", many)], [("<b></b>", many), ("</b>", one)],
            [("<b></b>\n", many), ("<a ;>", one)], [("\U0001f600", many), ("<;", one)], [("<script>", one), ("<\n", many)],
            [("x", many), ("</b>", one)], [("<a", one), (" b", many), (" c=d>", one)], [("<!--", one), ("\xe9", many), ("--><a></b>", one)],
            [("<a></a>", many), ("<b><!doctype x>", one)], [("\r\n", many), ("<a b=\"", one)], [("<i>", one), ("<a>", many), ("<b ;>", one)],
            [("<a b=\"", one), ("\n", many), ("\"><b c=", one)], [("<title>", one), ("\u20ac\n", many), ("</title></a>", one)],
            [("<c>\n", one), ("<br/>", many), ("<a/><d>", one)],
        ]
        if faults:
            for s in bad:
                case(s)
            return out
        for i, s in enumerate(shapes):
            case(s, progs[i % len(progs)], depth=any(x == "<a>" and m for x, m in s))
            case(s, self.pick(progs), depth=any(x == "<a>" and m for x, m in s))
        for s in shapes[:3] + shapes[-3:]:
            for p in progs:
                case(s, p, depth=any(x == "<a>" and m for x, m in s))
        for s in bad:
            case(s)
        # many items or streamed events
        def long(prog, width):
            n = max(4, size // width)

            def mark(p):
                for o in p:
                    if "items" in o:
                        o["many"] = n
                    for k in ("c", "val", "sep"):
                        if o.get(k, {}).get("c") == "stream" or o.get(k, {}).pop("long", False):
                            o[k]["many"] = n
                    mark(o.get("p", []))
                    mark(o.get("q", []))
            mark(prog)
            out.append({"k": "big", "parts": [{"x": cp("<b>y</b><a>x<b></b></a>z"), "n": 1}], "prog": prog, "maxd": -1, "maxl": -1,
                        "depth": 0, "many": n})
        a = lambda p, **kw: [sel(tag("a"), p, **kw)]
        rep = lambda o, p, **kw: dict({"o": o, "items": [7], "p": p, "id": 0}, **kw)
        item = [{"o": "append", "c": {"c": "env", "d": 0}}]
        stream = lambda *evs: {"c": "stream", "ev": list(evs), "err": {"e": "none"}, "id": 0}
        long([rep("repeat", [])], 24)
        long([rep("repeatelse", item, q=[])], 24)
        long(a([rep("repeat", [{"o": "remove"}])]), 10)
        long(a([rep("repeat", [{"o": "setattr", "name": cp("t"), "val": {"c": "env", "d": 0}}])]), 24)
        long(a([rep("repeatc", item)]), 10)
        long(a([rep("repeatcelse", [], q=[])]), 10)
        long(a([rep("repeatc", [{"o": "remove"}])]), 10)
        long(a([{"o": "appendc", "c": stream(ev("data", x="d"), ev("void", "br"))}]), 6)
        long(a([{"o": "prepend", "c": stream(ev("open", "q"), ev("close", "q"))}]) + [sel(tag("q"), [{"o": "remove"}])], 8)
        long([{"o": "append", "c": stream(ev("open", "q"), ev("close", "q"))}, sel(tag("q"), [{"o": "appendc", "c": txt("&")}], direct=True)], 8)
        long([{"o": "replace", "c": stream(ev("open", "q"))}, sel(tag("q"), [{"o": "remove"}])], 8)
        long([{"o": "replace", "c": stream(ev("open", "q"))}], 8)
        long([{"o": "replace", "c": stream(ev("noop"))}], 8)
        long([{"o": "prepend", "c": stream(ev("noop"), ev("noop"), ev("close", "q"))}, sel(tag("a"), [{"o": "remove"}])], 8)
        lots = lambda x, kinds=("str", "data", "datas", "dataref", "value", "values", "valueref", "datafrom"): \
            {"c": self.pick(kinds), "x": cp(x), "long": True}
        vals = lambda x: lots(x, ("str", "value", "values", "valueref"))
        for x in ("<", "a&", "\xe9\"", "x"):
            long([{"o": "append", "c": lots(x)}], len(x.encode()))
            long(a([{"o": self.pick(["replacec", "prependc", "prepend"]), "c": lots(x)}]), len(x.encode()))
            long(a([{"o": self.pick(["setattr", "addattr"]), "name": cp("t"), "val": vals(x), "nk": "static", "opt": False}]), len(x.encode()))
            long(a([{"o": "addto", "name": cp("t"), "val": vals(x), "sep": vals(x), "nk": "static"}] * 2), 2 * len(x.encode()))
            long(a([rep("repeat", [{"o": "addto", "name": cp("t"), "val": txt("x"), "sep": txt(""), "nk": "static"}, {"o": "append", "c": {"c": "env", "d": 0}}])]), 200)
        for parts, prog, depth in self.NUMBERED:
            part = [{"x": cp(x), "n": max(4, size // max(len(x) for x, k in parts)) if k else 1, "num": k} for x, k in parts]
            out.append({"k": "big", "parts": part, "prog": copy.deepcopy(self.pick(prog)), "maxd": -1, "maxl": -1,
                        "depth": part[0]["n"] if depth else 0})
        case([("<a>", many), ("</a>", many)], [], depth=1, maxd=max(4, size // 7))
        case([("<a>", many), ("</a>", many)], [], depth=1, maxd=max(4, size // 7) - 1)
        case([("x", many)], [], maxl=size)
        case([("x", many)], [], maxl=size - 1)
        return out

    def deep_cases(self, n):
        """Elements within many others, and behind them, and programs which look for them."""
        out = []
        txt = {"c": "str", "x": cp("!")}
        for outer in ("a", "b"):
            for direct in (False, True):
                for once in (False, True):
                    for x in ("a", "b", "c"):
                        p = self.pick([[{"o": "appendc", "c": txt}], [{"o": "prepend", "c": txt}], [{"o": "remove"}], [{"o": "addclass", "name": cp("k")}],
                                       [{"o": "sel", "sel": {"s": "static", "x": cp(self.pick("abc"))}, "direct": self.chance(0.5), "once": self.chance(0.5),
                                         "sub": self.chance(0.5), "p": [{"o": "append", "c": txt}], "id": 0}]])
                        inner = self.pick(["<b></b>", "x<c/>y", "<a></a><c></c>", "<b/>", "<c><b></b></c>"])
                        parts = [(self.pick(["", "x", "<c></c>", "<b/>"]), 1), ("<%s>" % outer, n), (inner, 1), ("</%s>" % outer, n),
                                 (self.pick(["", "<b></b>", "<c>z</c><a></a>", "<a/><b/>y"]), 1)]
                        prog = [{"o": "sel", "sel": {"s": "tag", "x": cp(x)}, "direct": direct, "once": once, "sub": False, "p": p, "id": 0}]
                        out.append({"k": "big", "parts": [{"x": cp(x), "n": m} for x, m in parts if x], "prog": prog, "maxd": -1, "maxl": -1, "depth": 0})
        return out

    def big_trans(self, prof, n):
        """A random text with a repeated piece, transformed by a random program (none: prof is None)."""
        while True:
            k = self.r.random()
            names = (prof or {}).get("names")
            part = lambda lo, hi: self.source(self.parsed_doc(lo, hi, names=names))
            el = lambda: ev("open", self.case(self.pick((names or self.NAMES)[:4])), self.attrs(rich=False))
            if k < 0.4:
                parts = [(part(0, 2), 1), (part(1, 3), n), (part(0, 2), 1)]
            elif k < 0.7:
                e = el()
                parts = [(self.layout(e) + part(0, 1), n), (part(0, 2), 1), (part(0, 1) + "</%s>" % "".join(map(chr, e["t"])), n)]
            elif k < 0.85:
                e = el()
                parts = [(part(0, 1) + self.layout(e), 1), (part(1, 3), n), ("</%s>" % "".join(map(chr, e["t"])) + part(0, 1), 1)]
            elif k < 0.9:
                parts = [("<a class=\"", 1), (self.pick(["k ", "l\n", "x y ", "\t"]), n), ("k\">", 1), (part(0, 1), 1), ("</a>", 1)]
            elif k < 0.95:
                parts = [(self.pick(["<a t=\"", "<b>", "<script>", "<!--", "<a id=\""]), 1), (self.plain(1, 4, special=False), n)]
                parts.append(({"<a t": "\"></a>", "<b>": "</b>", "<scr": "</script>", "<!--": "-->", "<a i": "\"/>"}[parts[0][0][:4]], 1))
            else:
                parts = [("<a", 1), (" %s" % self.pick(["t=\"1\"", "u", "CLASS=\"k\"", "id"]), n), (">x</a>", 1)]
            prog = []
            if prof is not None:
                self.next_id = 0
                prog = self.prog(False, min(prof.get("depth", 2), 2), 0, dict(prof, streams=0, errors=0, badnames=0, badsel=0, malformed=0),
                                 1)[0]
                sels = [o for o in prog if o["o"] == "sel"]
                if k >= 0.4 and sels and self.chance(0.8):
                    # the repeated or the surrounding element is what is selected
                    o = sels[0]
                    text = "".join(x for x, m in parts if k < 0.7 and m > 1 or k >= 0.7)
                    found = [w.strip("< /\n\t\r>") for w in text.replace("<", " <").split() if w.startswith("<") and w[1:2].isalpha()]
                    if found:
                        o["sel"] = {"s": "tag", "x": cp(self.case(found[0].split("/")[0].split(">")[0], 0.2))}
                        if not o["p"]:
                            o["p"] = self.prog(True, 1, 1, dict(prof, streams=0, errors=0, badnames=0, badsel=0, malformed=0), 1)[0]
                events = [ev("open", "a"), ev("data", x="x"), ev("close", "a")] * 4
                if effort({"doc": events, "prog": prog}) > 30 * len(events):
                    continue
            if not any(x for x, m in parts if m > 1) or sum(len(x) * m for x, m in parts) > 4000000:
                continue
            return {"k": "big", "parts": [{"x": cp(x), "n": m} for x, m in parts], "prog": prog, "maxd": -1, "maxl": -1, "depth": 0}

    # ------------------------------------------------------------ static programs
    BANK_FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "bank.json")
    BANK = json.load(open(BANK_FILE)) if os.path.exists(BANK_FILE) else []

    def bank_case(self, tags=None, **kw):
        """One of the harness' static programs with new texts, items and flags."""
        self.family(0.2)
        self.next_id = 0
        shapes = [i for i, s in enumerate(self.BANK) if not tags or s["tag"] in tags]
        return self.bank_shape(self.pick(shapes), **kw)

    def pair_cases(self, times=1):
        """All the programs which consist of two operations."""
        return [self.bank_shape(i) for _ in range(times) for i, s in enumerate(self.BANK) if s["tag"] == "pair"]

    def bank_shape(self, i, **kw):
        self.next_id = 0
        prog = copy.deepcopy(self.BANK[i]["prog"])
        names = self.pick([None, ["a", "b"], ["a", "b", "div"]])
        self.refill(prog, names)
        d = self.parsed_doc(1, 9, names=names)
        if self.chance(0.35):
            self.aim(prog, d)
        return dict({"k": "trans", "doc": d, "parsed": self.chance(0.8), "prog": prog, "bank": i}, **kw)

    def refill(self, j, names):
        if isinstance(j, list):
            for x in j:
                self.refill(x, names)
            return
        if not isinstance(j, dict):
            return
        c = j.get("c")
        if j.get("s"):
            while True:
                new = self.sel(names=names, wrap=False)
                if new["s"] == j["s"] or j["s"] == "custom":
                    break
            if j["s"] == "static" and names and self.chance(0.6):
                new["x"] = cp(self.pick(names))
            if j["s"] != "custom":
                j.update(new)
            return
        if c in ("str", "data", "datas", "dataref", "value", "values", "valueref", "datafrom"):
            j["x"] = cp(self.ins_text(True))
        elif c == "int":
            while True:
                t = self.int_text()
                if t["ty"] == j["ty"]:
                    break
            j["x"] = t["x"]
        elif c in ("tpl", "stream"):
            j["ev"] = self.parsed_doc(0, 4)
        elif c == "parse":
            if j["maxl"] < 0 and j["maxd"] < 0:
                j["x"] = cp(self.source(self.parsed_doc(0, 3)))
        elif c == "elem":
            j["x"] = cp(self.case(self.pick(self.NAMES + VOID)))
        elif c == "telem":
            j["x"] = cp(self.case(self.pick(self.NAMES + VOID)))
        if j.get("o") in ATTR_OPS and "name" in j:
            if j["o"] in ("addclass", "rmclass"):
                j["name"] = cp(self.case(self.word(), 0.3))
            elif j["o"] == "setid":
                j["name"] = cp(self.case(self.pick(self.IDS), 0.3))
            else:
                j["name"] = cp(self.case(self.pick(self.ATTRS), 0.3))
        if "items" in j:
            j["items"] = self.items()
            j["hint"] = self.r.randrange(9)
        if "b" in j and isinstance(j["b"], bool):
            j["b"] = self.chance(0.6)
        if "v" in j and isinstance(j["v"], int):
            j["v"] = self.r.randint(-5, 50)
        for k in ("p", "q", "c", "i", "val", "sep", "sel"):
            if isinstance(j.get(k), (list, dict)):
                self.refill(j[k], names)

    # ------------------------------------------------------------ large cases
    SIZES = [9, 17, 33, 65, 100, 129, 200, 257, 257, 260, 300]

    def size(self, most=300):
        return self.pick([n for n in self.SIZES if n <= most])

    def tower(self, prof):
        """Equally named elements nested beyond the range of small counters, and a program on them."""
        while True:
            n = self.pick([127, 128, 129, 254, 255, 256, 257, 258, 260, 300, 512, 513])
            t = self.pick(["a", "a", "b", "LI", "x-y"])
            el = lambda: ev(self.pick(["self", "open"]), t, self.attrs(1) if self.chance(0.3) else ())
            close = lambda e: [e] if e["k"] == "self" else [e, ev("close", t)]
            side = lambda: self.pick([[], [], [ev("data", x="x")], close(el()), [ev("void", "br")], [ev("self", "b")]])
            at, special = self.r.randrange(n), self.attrs(1) if self.chance(0.5) else ()
            mixed = self.chance(0.2)
            names = [self.pick([t, t, "c"]) if mixed else self.case(t, 0.1) for _ in range(n)]
            d = side() + [ev("open", m, special if i == at else ()) for i, m in enumerate(names)]
            d += side() + [ev("data", x="y")] * self.chance(0.5) + [ev("comment", x="z")] + side()
            closes = [ev("close", m) for m in reversed(names)]
            j = self.r.randint(0, n)
            d += closes[:j] + side() + closes[j:] + side()
            d = [e for i, e in enumerate(d) if not (i and e["k"] == "data" and d[i - 1]["k"] == "data")]
            self.next_id = 0
            p, e = self.prog(True, min(prof.get("depth", 2), 2) - 1, 1, dict(prof, names=[t, "b", "c"]), 1)
            sel = {"s": self.pick(["tag", "static"]), "x": cp(self.case(t, 0.2))} if self.chance(0.8) else self.sel(names=[t, "c"])
            if special and self.chance(0.3):
                a = special[0]
                name = "".join(map(chr, a["n"])).lower()
                if name in ("id", "class") and a["h"] and a["v"]:
                    w = "".join(map(chr, a["v"])).split()
                    if w and all(c.isalnum() and c.isascii() for c in w[0]):
                        sel = {"s": "static", "x": cp(("#" if name == "id" else ".") + w[0])}
            prog = [{"o": "sel", "direct": self.chance(0.4), "once": self.chance(0.6), "sub": False, "sel": sel, "p": p, "id": 0}]
            if self.chance(0.2):
                prog.append(self.op(False, 1, 0, dict(prof, names=[t, "b", "c"]))[0])
            c = {"k": "trans", "doc": d, "parsed": self.chance(0.8), "prog": prog}
            if prof.get("re"):
                c["re"] = True
            if prof.get("twice"):
                c["twice"] = True
            if effort(c) <= 12000:
                return c

    def grow(self, c):
        """A grown case (or the case as it is, if that would be too much work for the specification)."""
        old = copy.deepcopy(c)
        new = self.enlarge(copy.deepcopy(c))
        self.valid_names(new)
        if new["k"] in ("trans", "sel") and sum(len(e["x"]) + sum(len(a["v"]) for a in e["a"]) for e in new["doc"]) > 8000:
            return old
        return new if new["k"] != "trans" or effort(new) <= 6000 else old

    def valid_names(self, j):
        """Names given as identifiers are valid."""
        if isinstance(j, dict):
            x = j.get("name" if "o" in j else "x")
            if j.get("nk") in ("own", "ref") and x is not None and \
                    (not x or any(c >= 128 or chr(c) in " \t\n\r\x0b\x0c=\"/><&,;" for c in x)):
                j["nk"] = "res"
            for v in j.values():
                self.valid_names(v)
        elif isinstance(j, list):
            for v in j:
                self.valid_names(v)

    def enlarge(self, c):
        """A case with some dimensions beyond ordinary sizes (counters, buffers, indices, thresholds)."""
        k = c["k"]
        if k in ("trans", "sel"):
            for _ in range(self.pick([1, 1, 2])):
                c["doc"] = self.grow_doc(c["doc"])
            if k == "trans" and "bank" not in c and self.chance(0.5):
                self.grow_prog(c["prog"])
            if k == "sel" and self.chance(0.5):
                self.grow_sel(c["sel"])
            if self.chance(0.2):
                self.lengthen(c)
            if self.chance(0.2):
                self.widen(c["prog"] if k == "trans" else c["sel"])
        elif k == "parse":
            for _ in range(self.pick([1, 1, 2])):
                c["x"] = self.grow_text(c["x"])
            if c["maxl"] >= 0:
                c["maxl"] = max(0, len("".join(map(chr, c["x"])).encode()) + self.pick([0, -1, 1, 100]))
            if c["maxd"] >= 0:
                n = self.size()
                t = self.pick(["a", "LI"])
                c["x"] = cp(("<%s>" % t) * n) + c["x"] + cp(("</%s>" % t) * n)
                c["maxd"] = n + self.pick([0, 0, -1, 1, 2, 3])
        elif k == "ident":
            n = self.size()
            at = self.r.randint(0, len(c["x"]))
            fill = cp(self.pick("aZ9-_")) * n
            same = c["x"] == c["y"]
            c["x"] = c["x"][:at] + fill + c["x"][at:]
            c["y"] = list(c["x"]) if same else c["y"][:at] + (fill if self.chance(0.8) else fill[1:]) + c["y"][at:]
        elif k == "text":
            n = self.size()
            at = self.r.randint(0, len(c["x"]))
            c["x"] = c["x"][:at] + cp(self.pick(["a", "<", "&", "&amp;", "\xe9", '"', "\U0001f600", "\n"])) * n + c["x"][at:]
        elif k == "hist":
            m = sum(1 for s in c["steps"] if s["s"] != "drop")
            extra = []
            for _ in range(self.pick([20, 40])):
                extra.append({"s": "clone", "i": self.r.randrange(m)} if self.chance(0.7) else
                             {"s": "drop", "i": self.r.randrange(m), "j": self.r.randrange(m)})
            bad = [s for s in c["steps"] if s["s"] == "trans" and s["prog"] and s["prog"][-1].get("c", {}).get("c") == "err"]
            if not bad and not any(s["s"] == "parse" and s["x"] == cp("</a>") for s in c["steps"]):
                c["steps"] += [s for s in extra if s["s"] == "clone"]
        elif k == "file" and c["mode"] in ("file", "fifo") and c["bytes"]:
            n = self.size()
            piece = self.pick(c["bytes"])
            if len(piece["b"]) * piece.get("n", 1) * n < 40000:
                old = sum(len(p["b"]) * p.get("n", 1) for p in c["bytes"])
                piece["n"] = piece.get("n", 1) * n
                total = sum(len(p["b"]) * p.get("n", 1) for p in c["bytes"])
                c["small"] = total <= 3000
                if c["maxl"] >= 0:
                    c["maxl"] = max(0, c["maxl"] + total - old)
                if "chunks" in c and total > 3000:
                    c["chunks"] = [self.pick([511, 4096, 8191, 8192, 8193, total])]
        return c

    def nodes(self, d):
        """Positions (first, last) of the nodes of a document."""
        out, st = [], []
        for i, e in enumerate(d):
            if e["k"] == "open":
                st.append(i)
            elif e["k"] == "close":
                if st:
                    out.append((st.pop(), i))
            else:
                out.append((i, i))
        return out

    def grow_doc(self, d):
        nodes = self.nodes(d)
        k = self.pick(["nest", "nest", "sib", "sib", "attrs", "attrs", "classes", "value", "text", "deep"])
        if not nodes:
            d = [ev("open", "a"), ev("close", "a")]
            nodes = [(0, 1)]
        tags = [i for i, e in enumerate(d) if e["k"] in ("open", "self", "void")]
        i, j = self.pick(nodes)
        if d[i]["k"] == "doctype" or d[i]["k"] == "raw":
            return d
        if k == "nest":
            # equally (or alternately) named elements around a node
            n = self.size(300 if len(d) < 20 else 65)
            nm = self.pick(["a", "b", "li"]) if self.chance(0.5) or d[i]["k"] != "open" else "".join(map(chr, d[i]["t"]))
            if nm.lower() in RAW + VOID:
                nm = "a"
            mixed = self.chance(0.3)
            names = [self.pick([nm, nm, "b"]) if mixed else self.case(nm, 0.1) for _ in range(n)]
            some = self.attrs(self.pick([0, 0, 1])) if self.chance(0.5) else []
            at = self.r.randrange(n)
            return d[:i] + [ev("open", t, some if x == at else ()) for x, t in enumerate(names)] + d[i:j + 1] + \
                [ev("close", t) for t in reversed(names)] + d[j + 1:]
        if k == "deep":
            # within an element: many open elements before the rest of its contents
            opens = [(a, b) for a, b in nodes if d[a]["k"] == "open" and not (b > a + 1 and d[a + 1]["k"] == "raw")
                     and "".join(map(chr, d[a]["t"])).lower() not in RAW]
            if not opens:
                return d
            a, b = self.pick(opens)
            n = self.size(300 if len(d) < 20 else 65)
            nm = list(d[a]["t"]) if self.chance(0.6) else cp(self.pick(["a", "b"]))
            return d[:a + 1] + [ev("open", nm) for _ in range(n)] + [ev("close", nm) for _ in range(n)] + d[a + 1:]
        if k == "sib":
            if d[i]["k"] == "data" or j - i > 12:
                return d
            n = self.size(300 if j == i else 129)
            return d[:i] + d[i:j + 1] * n + d[j + 1:]
        if not tags or k == "text":
            texts = [x for x, e in enumerate(d) if e["k"] in ("data", "comment", "raw") and e["x"]]
            if not texts:
                return d
            x = self.pick(texts)
            n = self.size() * self.pick([1, 1, 1, 4, 16])
            t = list(d[x]["x"])
            at = self.r.randrange(len(t))
            d = list(d)
            if d[x]["k"] == "data":
                t[at:at] = [self.pick([97, 10, 38, 0xe9, 0x20ac, 0x1f600, 62])] * n
            else:
                t[0:0] = [self.pick([97, 10, 38, 0xe9, 0x20ac, 0x1f600])] * n
            d[x] = dict(d[x], x=t)
            return d
        x = self.pick(tags)
        e = dict(d[x])
        a = list(e["a"])
        if k == "attrs":
            n = self.size()
            new = self.pick([[attr("t", "1")], [attr("class", "k")], [attr("q%d" % y, str(y)) for y in range(9)],
                             [attr("x", None)], self.attrs(2) or [attr("id", "i")]])
            at = self.r.randint(0, len(a))
            a[at:at] = (new * n)[:n]
        elif k == "classes":
            n = self.size()
            words = [self.pick(["l", "k", "foo", "zz"]) for _ in range(2)]
            a.insert(self.r.randint(0, len(a)), attr("class", " ".join((words * n)[:n] + [self.word()])))
        else:
            n = self.size() * self.pick([1, 1, 4])
            if not a:
                a = [attr("href", "u")]
            y = self.r.randrange(len(a))
            v = list(a[y]["v"])
            at = self.r.randint(0, len(v))
            v[at:at] = [self.pick([97, 32, 10, 38, 0xe9, 0x1f600, 62, 60])] * n
            a[y] = {"n": a[y]["n"], "h": True, "v": v}
        e["a"] = a
        d = list(d)
        d[x] = e
        return d

    def grow_prog(self, prog):
        """Enlarges one place of a program."""
        places = []

        def walk(p):
            for i, o in enumerate(p):
                if o["o"] in ATTR_OPS:
                    places.append((self.chain, p, i))
                if "items" in o:
                    places.append((self.more_items, p, i))
                    places.append((self.more_items, p, i))
                if "sel" in o:
                    places.append((lambda q, j: self.grow_sel(q[j]["sel"]), p, i))
                for f in ("c", "val", "sep"):
                    if isinstance(o.get(f), dict) and o[f].get("c") in ("str", "data", "datas", "dataref", "value", "values",
                                                                     "valueref", "datafrom") and o[f].get("x"):
                        places.append((lambda q, j, f=f: self.longer(q[j][f]), p, i))
                if o["o"] == "sel" and not o["sub"]:
                    places.append((self.passes, p, i))
                for f in ("p", "q"):
                    if isinstance(o.get(f), list):
                        walk(o[f])
        walk(prog)
        if places:
            f, p, i = self.pick(places)
            f(p, i)

    def chain(self, p, i):
        p[i:i + 1] = [dict(p[i]) for _ in range(self.size(65))]

    def more_items(self, p, i):
        n = self.size(260)
        p[i]["items"] = [self.r.randint(-9, 99) for _ in range(n)]

    def passes(self, p, i):
        n = self.pick([9, 17, 33])
        p[i:i] = [dict(p[i], p=[], sel={"s": "static", "x": cp(self.pick(["zz", "a", ".k"]))}) for _ in range(n)]

    def longer(self, c):
        x = list(c["x"])
        at = self.r.randrange(len(x))
        n = self.size()
        x[at:at] = (x[at:at + 1] if self.chance(0.5) else [self.pick([97, 60, 38, 34, 0xe9, 0x1f600])]) * n
        c["x"] = x

    def grow_sel(self, s):
        n = self.size(129)
        if s["s"] == "static":
            s["x"] = s["x"] + cp("." + self.pick(["k", "l", "foo"])) * n + cp("." + self.word())
        elif s["s"] == "classes":
            s["xs"] = [cp(self.pick(["k", "l", "foo"]))] * n + s["xs"]

    def widen(self, p):
        """Puts a run of some character into one of the texts of a program or selector."""
        found = []

        def walk(j):
            if isinstance(j, dict):
                if j.get("c") == "int":
                    return
                for key, v in j.items():
                    if key in ("ev", "err"):
                        continue
                    if j.get("nk") in ("own", "ref") and key == ("name" if "o" in j else "x"):
                        # given as an identifier, so it is valid
                        continue
                    if key in ("x", "name") and isinstance(v, list):
                        found.append(v)
                    elif key == "xs":
                        found.extend(v)
                    else:
                        walk(v)
            elif isinstance(j, list):
                for v in j:
                    walk(v)
        walk(p)
        found = [v for v in found if all(type(x) is int for x in v)]
        if found:
            v = self.pick(found)
            i = self.r.randint(0, len(v))
            v[i:i] = cp("abc"[:self.r.randint(0, 3)] + self.pick(["\u20ac", "\xe9", "\U0001f600", "a", " ", "&", ";"]) * self.size())

    def lengthen(self, c):
        """Makes a word longer, wherever it occurs."""
        w = self.pick(["div", "li", "span", "kk", "foo", "bar", "href", "data-x", "ij"])
        new = cp(w + w[-1] * self.size())
        old = cp(w)
        seen = set()

        def part(j, i):
            return 0 <= i < len(j) and (j[i] == 45 or j[i] < 128 and chr(j[i]).isalnum())

        def walk(j):
            if isinstance(j, list):
                # parts of a case may be shared
                if id(j) in seen:
                    return
                seen.add(id(j))
            if isinstance(j, dict):
                for v in j.values():
                    walk(v)
            elif isinstance(j, list):
                if j and all(type(x) is int for x in j):
                    i = 0
                    while i + len(old) <= len(j):
                        if j[i:i + len(old)] == old and not part(j, i - 1) and not part(j, i + len(old)):
                            j[i:i + len(old)] = new
                            i += len(new)
                        else:
                            i += 1
                else:
                    for v in j:
                        walk(v)
        walk(c)

    def grow_text(self, x):
        """Repeats or inserts something in a source text."""
        s = "".join(map(chr, x))
        n = self.size() * self.pick([1, 1, 1, 1, 4])
        k = self.r.random()
        at = self.r.randint(0, len(s))
        if k < 0.3:
            t = self.pick(["x", "\n", " ", "\xe9", "\u20ac", "\U0001f600", "\t", "\r\n"])
            if self.chance(0.03):
                n = self.pick([65534, 65535, 65536, 70000])
            s = s[:at] + t * n + s[at:]
        elif k < 0.45:
            t = self.pick(["<b></b>", "<br>", "<b/>", "<!---->", "<script></script>", "\n<hr>", "<p>x</p>", "<i t></i>"])
            s = s[:at] + t * self.size() + s[at:] if self.chance(0.5) else t * self.size() + s
        elif k < 0.6:
            nm = self.pick(["a", "b", "div", "x-y"])
            m = self.size()
            s = ("<%s>" % nm) * m + s + ("</%s>" % nm) * self.pick([m, m, m, m - 1, m + 1, 0, self.r.randint(0, m)])
        elif k < 0.75:
            i = s.find("<", at) if s.find("<", at) >= 0 else s.find("<")
            j = i + 1
            while 0 <= i and j < len(s) and s[j].isalpha():
                j += 1
            t = self.pick([' t="1"', " t", ' class="k"', ' t=""'])
            if i >= 0:
                s = s[:j] + t * self.size() + s[j:]
        elif s:
            b = min(len(s), at + self.r.randint(1, 12))
            s = s[:at] + s[at:b] * self.size() + s[b:]
        return cp(s)
