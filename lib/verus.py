"""The Verus layer: functions extracted from /repo on every run, under the contracts of verus/*.rs.

A template is Verus source with directives, each of which is replaced by text taken from /repo:

    //@ item FILE PATH                  the item as it is (types, traits)
    //@ fn FILE PATH                    the function, under the contract which follows:
    //@   as NAME                       its name here
    //@   parameter NAME                renames its type parameter (Verus goes by the names in the trait)
    //@   returns NAME                  names the returned value
    //@   sub A => B                    replaces tokens A by B (each a plain renaming, stated in the evidence)
    //@   spec                          lines of requires and ensures
    //@   loop N                        lines of the invariant of the N-th loop
    //@   body                          proof code at the start of the body
    //@   desugar N                     writes out the N-th loop, a `for` loop, with `next`
    //@   within N                      proof code at the start of the body of the N-th loop
    //@   hint before|after N TOKENS    proof code before (after) the statement which starts with TOKENS
    //@ end

What the extraction changes is stated in TRANSFORMATIONS. A function whose text, after normalization, is not the
recorded one, and which needs a loop invariant or a hint, counts as undecided rather than failed when its proof fails:
the annotations may have lost their anchor.
"""
import hashlib, json, os, re, time
from common import *
import rustsrc
from rustsrc import Lost, tokenize, render, match

TRANSFORMATIONS = [
    "comments and attributes are dropped; only the configuration with the standard library is extracted",
    "assert!, assert_eq! and their debug variants become obligations: `if !(condition) { panicked() }`, where panicked() requires false",
    "statements under `if cfg!( debug_assertions )` are dropped",
    "`x.map( |v| e )`, `x.map_err( |v| e )`, `x.ok_or_else( f )` are written out as the match which they abbreviate",
    "`{ x.and_then( |v| e ) }?`, with nothing but closing brackets between, is written out as the match which it abbreviates: a `?` within `e` leaves with the error with which the last one would",
    "`match e { p if g => a, x => b }` is written out as `{ let x = e; if (match &x { p if g => true, _ => false }) { a } else { b } }`",
    "`for p in e { b }` over a collection is written out as `{ let mut i = IntoIterator::into_iter( e ); loop { match i.next() { None => break, Some( p ) => { b } } } }`",
    "`x.get_mut( range )` is written as `slice_get_mut( &mut *x, range )`, which has the contract of that method",
    "arms `P( ref x ) if g => a, P( x ) => b` are written out as `P( x ) => { if g[ &x ] { a } else { b } }`",
    "the type parameter of a method is renamed",
    "`let &( ref a, ref b ) = e` is written as `let ( a, b ) = e`",
    "`macro_rules!` macros of the simple forms `$a:kind, ...` and `$( $a:kind ),+` are expanded",
    "the iterator of a `for` loop with an invariant is named",
    "the returned value is named; requires, ensures and invariants are inserted",
]
TEMPLATES = os.path.join(ROOT, "verus")
RECORDED = os.path.join(TEMPLATES, "recorded.json")


def args_of(tokens):
    """Splits at the commas of the outermost level (angle brackets aren't considered)."""
    parts, depth, part = [], 0, []
    for t in tokens:
        if t in rustsrc.OPEN:
            depth += 1
        elif t in rustsrc.CLOSE:
            depth -= 1
        if t == "," and depth == 0:
            parts.append(part)
            part = []
        else:
            part.append(t)
    if part:
        parts.append(part)
    return parts


def asserts(tokens):
    out, i = [], 0
    while i < len(tokens):
        t = tokens[i]
        if t in ("assert", "debug_assert", "assert_eq", "debug_assert_eq", "assert_ne", "debug_assert_ne") and tokens[i + 1:i + 2] == ["!"]:
            end = match(tokens, i + 2)
            parts = args_of(tokens[i + 3:end])
            if t.endswith("_eq"):
                condition = ["("] + parts[0] + [")", "==", "("] + parts[1] + [")"]
            elif t.endswith("_ne"):
                condition = ["("] + parts[0] + [")", "!=", "("] + parts[1] + [")"]
            else:
                condition = parts[0]
            out += ["if", "!", "("] + asserts(condition) + [")", "{", "panicked", "(", ")", ";", "}"]
            i = end + 1
            if tokens[i:i + 1] == [";"]:
                i += 1
        elif tokens[i:i + 6] == ["if", "cfg", "!", "(", "debug_assertions", ")"]:
            i = match(tokens, i + 6) + 1
            if tokens[i:i + 1] == ["else"]:
                raise Lost("cfg!( debug_assertions ) with an else")
        else:
            out.append(t)
            i += 1
    return out


def receiver(tokens, dot):
    """The start of the postfix expression which ends before `dot`."""
    i = dot - 1
    while True:
        if tokens[i] in rustsrc.CLOSE:
            i = rustsrc.back(tokens, i)
            if i > 0 and tokens[i - 1] == ">":
                # a turbofish
                depth = 0
                i -= 1
                while True:
                    if tokens[i] == ">":
                        depth += 1
                    elif tokens[i] == "<":
                        depth -= 1
                        if depth == 0:
                            break
                    i -= 1
                i -= 1
            if i > 0 and (re.match(r"[A-Za-z_]\w*$", tokens[i - 1]) and tokens[i - 1] not in ("in", "return", "if", "match", "while", "else") or tokens[i - 1] in (")", "]", "?")):
                i -= 1
                continue
        elif tokens[i] == "?":
            i -= 1
            continue
        if i > 0 and tokens[i - 1] in (".", "::"):
            i -= 2
            continue
        return i


def slices(tokens):
    """`x.get_mut( r )` is `slice_get_mut( &mut *x, r )`: Verus cannot give a contract to the method itself, whose
    argument may be many things."""
    i = 0
    while i < len(tokens):
        if tokens[i] == "." and tokens[i + 1:i + 2] and tokens[i + 1] in SLICES and tokens[i + 2] == "(":
            end = match(tokens, i + 2)
            start = receiver(tokens, i)
            new = ["slice_" + tokens[i + 1], "("] + SLICES[tokens[i + 1]] + tokens[start:i] + [","] + tokens[i + 3:end] + [")"]
            tokens = tokens[:start] + new + tokens[end + 1:]
            i = start + 2
        else:
            i += 1
    return tokens


SLICES = {"get_mut": ["&", "mut", "*"]}


def closure(tokens):
    """`|p| e` or a path; returns a function from an argument to tokens."""
    if tokens and tokens[0] == "||":
        return None, tokens[1:]
    if tokens and tokens[0] == "|":
        end = tokens.index("|", 1)
        return tokens[1:end], tokens[end + 1:]
    return ["value__"], tokens + ["(", "value__", ")"]


def combinators(tokens, kinds):
    """Writes out map, map_err, ok_or_else. `kinds` says what the N-th `map` is applied to."""
    nth = 0
    i = 0
    while i < len(tokens):
        if tokens[i] == "." and tokens[i + 1:i + 2] and tokens[i + 1] in ("map", "map_err", "ok_or_else") and tokens[i + 2] == "(":
            end = match(tokens, i + 2)
            inner = tokens[i + 3:end]
            if inner and inner[-1] == ",":
                inner = inner[:-1]
            start = receiver(tokens, i)
            value = tokens[start:i]
            name = tokens[i + 1]
            parameter, body = closure(inner)
            if name == "map":
                kind = kinds[nth] if nth < len(kinds) else "Result"
                nth += 1
                if kind == "Option":
                    new = ["(", "match"] + value + ["{", "Some", "("] + parameter + [")", "=>", "Some", "("] + body + [")", ",", "None", "=>", "None", "}", ")"]
                else:
                    new = ["(", "match"] + value + ["{", "Ok", "("] + parameter + [")", "=>", "Ok", "("] + body + [")", ",", "Err", "(", "error__", ")", "=>", "Err", "(", "error__", ")", "}", ")"]
            elif name == "map_err":
                new = ["(", "match"] + value + ["{", "Ok", "(", "value__", ")", "=>", "Ok", "(", "value__", ")", ",", "Err", "("] + (parameter or ["_"]) + [")", "=>", "Err", "("] + body + [")", "}", ")"]
            else:
                if parameter is not None:
                    body = inner + ["(", ")"]
                new = ["(", "match"] + value + ["{", "Some", "(", "value__", ")", "=>", "Ok", "(", "value__", ")", ",", "None", "=>", "Err", "("] + body + [")", "}", ")"]
            tokens = tokens[:start] + new + tokens[end + 1:]
            i = start + 1
        else:
            i += 1
    return tokens


def continuations(tokens):
    """Writes out `{ x.and_then( |v| e ) }?`, in which a `?` of `e` ends up where that of the whole does."""
    i = 0
    while i < len(tokens):
        if tokens[i:i + 3] == [".", "and_then", "("]:
            end = match(tokens, i + 2)
            # The closing brackets between here and the `?`.
            j = end + 1
            while j < len(tokens) and tokens[j] in ("}", ")"):
                j += 1
            if j < len(tokens) and tokens[j] == "?":
                inner = tokens[i + 3:end]
                parameter, body = closure(inner)
                start = receiver(tokens, i)
                tokens = tokens[:start] + ["(", "match"] + tokens[start:i] + ["{", "Ok", "("] + parameter + [")", "=>", "{"] + body + ["}", ",", "Err", "(", "error__", ")", "=>", "Err", "(", "error__", ")", "}", ")"] + tokens[end + 1:]
                i = start + 1
                continue
        i += 1
    return tokens


def guards(tokens):
    """Writes out `match e { p if g => a, x => b }` with a pattern which binds by reference: Verus loses track of
    mutable references in an arm with a guard."""
    i = 0
    while i < len(tokens):
        if tokens[i] == "match":
            j = i + 1
            while tokens[j] != "{":
                j = match(tokens, j) + 1 if tokens[j] in ("(", "[") else j + 1
            end = match(tokens, j)
            arms = tokens[j + 1:end]
            arrow = arms.index("=>") if "=>" in arms else -1
            head = arms[:arrow]
            if "if" in head and "ref" in head:
                k = arrow + 1
                if arms[k] == "{":
                    stop = match(arms, k) + 1
                else:
                    stop = k
                    while arms[stop] != ",":
                        stop = match(arms, stop) + 1 if arms[stop] in rustsrc.OPEN else stop + 1
                first = arms[k:stop]
                rest = arms[stop + 1:] if arms[stop:stop + 1] == [","] else arms[stop:]
                if rest and rest[-1] == ",":
                    rest = rest[:-1]
                if len(rest) > 2 and rest[1] == "=>" and re.match(r"[a-z]\w*$", rest[0]) and "," not in rest[2:]:
                    name = rest[0]
                    new = ["{", "let", name, "="] + tokens[i + 1:j] + [";", "if", "(", "match", "&", name, "{"] + head + ["=>", "true", ",", "_", "=>", "false", "}", ")", "{"] + first + ["}", "else", "{"] + rest[2:] + ["}", "}"]
                    tokens = tokens[:i] + new + tokens[end + 1:]
        i += 1
    return tokens


def same_guards(tokens):
    """`P( ref x ) if g => a, P( x ) => b` is written out as `P( x ) => { if g[ &x ] { a } else { b } }`."""
    i = 0
    while i + 6 < len(tokens):
        name = tokens[i + 3]
        if tokens[i + 1:i + 3] == ["(", "ref"] and tokens[i + 4:i + 6] == [")", "if"]:
            pattern = [tokens[i], "(", name, ")"]
            arrow = tokens.index("=>", i)
            guard = tokens[i + 6:arrow]

            def arm(k):
                if tokens[k] == "{":
                    end = match(tokens, k) + 1
                    return end, end + 1 if tokens[end] == "," else end
                end = k
                while tokens[end] not in (",", "}"):
                    end = match(tokens, end) + 1 if tokens[end] in rustsrc.OPEN else end + 1
                return end, end + 1 if tokens[end] == "," else end
            first, then = arm(arrow + 1)
            if tokens[then:then + 5] == pattern + ["=>"]:
                last, after = arm(then + 5)
                condition = []
                for t in guard:
                    condition += ["(", "&", name, ")"] if t == name else [t]
                tokens = tokens[:i] + pattern + ["=>", "{", "if"] + condition + ["{"] + tokens[arrow + 1:first] + ["}", "else", "{"] + tokens[then + 5:last] + ["}", "}", ","] + tokens[after:]
        i += 1
    return tokens


def patterns(tokens):
    """`let &( ref a, ref b ) = e` is `let ( a, b ) = e`; attributes of statements are dropped."""
    out, i = [], 0
    while i < len(tokens):
        if tokens[i] == "#" and tokens[i + 1:i + 2] == ["["]:
            i = match(tokens, i + 1) + 1
        elif tokens[i:i + 3] == ["let", "&", "("]:
            end = match(tokens, i + 2)
            inner = tokens[i + 3:end]
            if all(t in ("ref", ",") or re.match(r"[A-Za-z_]\w*$", t) for t in inner) and all(inner[k - 1:k] == ["ref"] for k in range(len(inner)) if inner[k] not in ("ref", ",")):
                out += ["let", "("] + [t for t in inner if t != "ref"] + [")"]
                i = end + 1
            else:
                out.append(tokens[i])
                i += 1
        else:
            out.append(tokens[i])
            i += 1
    return out


def replace(tokens, a, b):
    out, i, n = [], 0, 0
    while i < len(tokens):
        if tokens[i:i + len(a)] == a:
            out += b
            i += len(a)
            n += 1
        else:
            out.append(tokens[i])
            i += 1
    return out, n


class Function:
    def __init__(self, file, path):
        self.file, self.path = file, path
        self.alias = self.result = None
        self.subs, self.spec, self.loops, self.hints, self.kinds = [], [], {}, [], []
        self.start, self.within, self.parameter = [], {}, None
        self.desugared = set()
        self.optional = False

    @property
    def name(self):
        return self.alias or self.path.split(" / ")[-1].split()[-1]

    def hinted(self):
        # What is proved at the start refers to the parameters only, which no change of the body affects.
        return bool(self.loops or self.hints or self.subs or self.within)

    def emit(self, source):
        item = rustsrc.find(source, self.path)
        if item.kind != "fn":
            raise Lost("`%s` is not a function" % self.path)
        header, body = [t for t in item.header], list(item.body or [])
        self.text = " ".join(header + body)
        while header[0] == "pub":
            header = header[1:]
            if header[0] == "(":
                header = header[match(header, 0) + 1:]
        if header[0] == "const":
            header = header[1:]
        if self.parameter and "<" in header:
            old = header[header.index("<") + 1]
            header = [self.parameter if t == old else t for t in header]
            body = [self.parameter if t == old else t for t in body]
        for a, b in self.subs:
            header, n = replace(header, a, b)
            body, m = replace(body, a, b)
            if n + m == 0:
                raise Lost("`%s` does not contain `%s`" % (self.path, " ".join(a)))
        body = guards(same_guards(continuations(combinators(asserts(slices(patterns(body))), self.kinds))))
        if self.alias:
            header[header.index("fn") + 1] = self.alias
        if self.result and "->" in header:
            # The arrow of the function itself follows its parameters.
            i = header.index("fn") + 2
            if header[i] == "<":
                depth = 0
                while True:
                    if header[i] == "<":
                        depth += 1
                    elif header[i] == ">":
                        depth -= 1
                        if depth == 0:
                            break
                    i += 1
                i += 1
            i = match(header, i) + 1
            if header[i:i + 1] == ["->"]:
                end = header.index("where", i) if "where" in header[i:] else len(header)
                header = header[:i + 1] + ["(", self.result, ":"] + header[i + 1:end] + [")"] + header[end:]
        where = []
        lines = []
        if "where" in header:
            i = header.index("where")
            header, where = header[:i], header[i:]
            if where[-1] != ",":
                where.append(",")
        lines.append(render(header))
        if where:
            lines.append(render(where))
        lines += self.spec
        if item.body is None:
            lines.append(";")
            return "\n".join(lines)
        lines.append("{")
        lines.append(self.annotate(body))
        lines.append("}")
        return "\n".join(lines)

    def annotate(self, body):
        # Markers are single tokens, which rendering keeps.
        markers = {}
        if self.loops:
            nth, i = 0, 0
            while i < len(body):
                if body[i] in ("while", "loop", "for") and (i == 0 or body[i - 1] in ("{", "}", ";", ":", "unsafe")):
                    j = i + 1
                    while body[j] != "{":
                        j = match(body, j) + 1 if body[j] in ("(", "[") else j + 1
                    if nth in self.loops:
                        mark = "LOOPMARK%d" % nth
                        markers[mark] = self.loops[nth]
                        inside = []
                        if nth in self.within:
                            inside = ["LOOPBODYMARK%d" % nth]
                            markers[inside[0]] = self.within[nth]
                        body = body[:j] + [mark, "{"] + inside + body[j + 1:]
                        if body[i] == "for" and nth in self.desugared:
                            k = body.index("in", i)
                            at = body.index(mark)
                            end = match(body, at + 1)
                            body = (body[:i] + ["{", "let", "mut", "iter__", "="] + ["IntoIterator", "::", "into_iter", "("] + body[k + 1:at] + [")", ";", "loop", mark, "{", "match", "iter__", ".", "next", "(", ")", "{", "None", "=>", "break", ",", "Some", "("]
                                    + body[i + 1:k] + [")", "=>"] + body[at + 1:end + 1] + ["}", "}", "}"] + body[end + 1:])
                            i = body.index(mark)
                        elif body[i] == "for":
                            # A name for the iterator.
                            k = body.index("in", i)
                            body = body[:k + 1] + ["it__", ":"] + body[k + 1:]
                        i += 1
                    nth += 1
                i += 1
            if sum(1 for m in markers if m.startswith("LOOPMARK")) != len(self.loops):
                raise Lost("`%s` has %d loops" % (self.path, nth))
        for n, (place, nth, pattern, text) in enumerate(self.hints):
            found = [i for i in range(len(body)) if body[i:i + len(pattern)] == pattern]
            if pattern == ["$"]:
                at = len(body)
            elif len(found) <= nth:
                raise Lost("`%s` does not contain `%s`" % (self.path, " ".join(pattern)))
            else:
                at = found[nth]
                if place == "after":
                    while body[at] != ";":
                        at = match(body, at) + 1 if body[at] in rustsrc.OPEN else at + 1
                    at += 1
            mark = "HINTMARK%d" % n
            markers[mark] = text
            body = body[:at] + [mark] + body[at:]
        if self.start:
            markers["STARTMARK"] = self.start
            body = ["STARTMARK"] + body
        text = render(body)
        for mark, insert in markers.items():
            text = re.sub(r"\b%s\b" % mark, lambda _: "\n" + "\n".join(insert) + "\n", text, count=1)
        return text


def directives(text):
    """Yields literal text and Function/Item objects."""
    lines = text.split("\n")
    i = 0
    literal = []
    while i < len(lines):
        m = re.match(r"\s*//@ (item|fn) (\S+) (.*)", lines[i])
        if not m:
            literal.append(lines[i])
            i += 1
            continue
        yield "\n".join(literal)
        literal = []
        if m.group(1) == "item":
            yield ("item", m.group(2), m.group(3).strip())
            i += 1
            continue
        f = Function(m.group(2), m.group(3).strip())
        target = None
        i += 1
        while not re.match(r"\s*//@ end", lines[i]):
            d = re.match(r"\s*//@\s+(\w+)\s*(.*)", lines[i])
            if d:
                word, rest = d.group(1), d.group(2).strip()
                if word == "as":
                    f.alias = rest
                elif word == "returns":
                    f.result = rest
                elif word == "sub":
                    a, b = rest.split("=>", 1) if " ==> " not in rest else rest.split(" ==> ", 1)
                    f.subs.append((tokenize(a), tokenize(b)))
                elif word == "kinds":
                    f.kinds = rest.split()
                elif word == "spec":
                    target = f.spec
                elif word == "parameter":
                    f.parameter = rest
                elif word == "desugar":
                    f.desugared.add(int(rest))
                elif word == "body":
                    target = f.start
                elif word == "within":
                    target = f.within.setdefault(int(rest), [])
                elif word == "loop":
                    target = f.loops.setdefault(int(rest), [])
                elif word == "hint":
                    place, nth, pattern = rest.split(None, 2)
                    target = []
                    f.hints.append((place, int(nth), tokenize(pattern) if pattern != "$" else ["$"], target))
                else:
                    raise Exception("bad directive " + lines[i])
            else:
                target.append(lines[i])
            i += 1
        i += 1
        yield f
    yield "\n".join(literal)


class Unit:
    def __init__(self, name):
        self.name = name
        self.functions = []
        self.lost = []

    def generate(self):
        out = []
        sources = {}

        def source(file):
            if file not in sources:
                sources[file] = tokenize(expansion() if file == "@zoo" else open(os.path.join(REPO, file)).read())
            return sources[file]

        text = template(self.name + ".rs")
        for d in directives(text):
            if isinstance(d, str):
                out.append(d)
            elif isinstance(d, Function):
                out.append(d.emit(source(d.file)))
                self.functions.append(d)
            else:
                item = rustsrc.find(source(d[1]), d[2])
                self.items = getattr(self, "items", []) + [(d[1], d[2])]
                out.append(render(patterns(item.header + (["{"] + item.body + ["}"] if item.body is not None else [";"]))))
        return "\n".join(out)


def expansion():
    """The types of verus/zoo with what the derive macros of /repo, as they are now, make of them."""
    if "zoo" not in EXPANDED:
        # A fresh file each time: cargo does not print again what it considers to be done.
        os.makedirs(os.path.join(BUILD, "expansion"), exist_ok=True)
        path = os.path.join(BUILD, "expansion", "expanded.%d.rs" % os.getpid())
        command = "touch src/lib.rs && exec cargo +nightly rustc --offline --lib --target-dir %s -- -Zunpretty=expanded > %s" % (os.path.join(BUILD, "expansion"), path)
        status, _ = run(["bash", "-c", command], 300, cwd=os.path.join(TEMPLATES, "zoo"), log=os.path.join(BUILD, "logs", "expansion.log"))
        EXPANDED["zoo"] = open(path).read() if status == 0 else None
        os.remove(path)
    if EXPANDED["zoo"] is None:
        raise Lost("the derive macros cannot be expanded")
    return EXPANDED["zoo"]


EXPANDED = {}


def template(name):
    text = open(os.path.join(TEMPLATES, name)).read()
    return re.sub(r"^//@ include (\S+)$", lambda m: template(m.group(1)), text, flags=re.M)


def run_verus(path, rlimit, seed, timeout, log):
    """Returns (report, errors): Verus's own report and its diagnostics."""
    status, out = run(["verus", path, "--output-json", "--time-expanded", "--rlimit", str(rlimit), "--multiple-errors", "5", "--num-threads", "4"]
                      + (["--smt-option", "smt.random_seed=%d" % seed] if seed else []) + ["--", "--error-format=json"],
                      timeout, cwd=os.path.dirname(path), log=log)
    return parse(out or "")


def outcomes(report):
    """What became of every function."""
    merged = {}
    for module in (report or {}).get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for b in module.get("function-breakdown", []):
            m = merged.setdefault(b["function"], dict(success=True, micros=0))
            m["success"] &= b["success"]
            m["micros"] += b["time-micros"]
    return merged


def parse(out):
    decoder = json.JSONDecoder()
    report, diagnostics = None, []
    i = 0
    while True:
        j = out.find("{", i)
        if j < 0:
            break
        try:
            value, end = decoder.raw_decode(out, j)
        except ValueError:
            i = j + 1
            continue
        i = end
        if isinstance(value, dict) and "verification-results" in value:
            report = value
        elif isinstance(value, dict) and value.get("$message_type") == "diagnostic" and value["level"] == "error":
            diagnostics.append(value)
    return report, diagnostics


class Layer:
    def __init__(self, units, tier, seed, deadline):
        self.units, self.tier, self.seed, self.deadline = units, tier, seed, deadline
        self.notes, self.commands, self.trusted, self.summary = [], [], [], []
        self.violations = []

    def run(self):
        recorded = json.load(open(RECORDED)) if os.path.exists(RECORDED) else {}
        results = []
        violation = None
        folder = os.path.join(BUILD, "verus")
        os.makedirs(folder, exist_ok=True)
        self.trusted += ["Verus 0.2026.09 with Z3; its contracts of the standard library (vstd)"]
        for name in self.units:
            u = Unit(name)
            for line in template(name + ".rs").split("\n"):
                m = re.match(r"//! trusted: (.*)", line)
                if m:
                    self.trusted.append("Verus unit %s: %s" % (name, m.group(1)))
            try:
                text = u.generate()
            except Lost as error:
                self.notes.append("verus unit %s: %s" % (name, error))
                results.append(dict(name="verus::" + name, status="undecided", reason="the extraction lost its anchor: %s" % error, bounded=False, seconds=0.0, solver=0.0, checks=0, backend="verus / z3"))
                continue
            path = os.path.join(folder, name + ".rs")
            with open(path, "w") as f:
                f.write(text)
            self.commands.append("verus %s --rlimit 60" % path)
            started = time.time()
            report, diagnostics = run_verus(path, 60, 0, max(30, min(300, self.deadline - time.time())), os.path.join(BUILD, "logs", "verus-%s.log" % name))
            merged = outcomes(report)
            for seed in (1, 2):
                # Whether a proof is found can depend on the seed; one which is found counts.
                if not report or report["verification-results"].get("encountered-vir-error") or all(m["success"] for m in merged.values()):
                    break
                again, more = run_verus(path, 60, seed, max(30, min(300, self.deadline - time.time())), os.path.join(BUILD, "logs", "verus-%s-%d.log" % (name, seed)))
                for function, m in outcomes(again).items():
                    if m["success"] and not merged[function]["success"]:
                        merged[function] = m
                diagnostics = more or diagnostics
            seconds = time.time() - started
            if not report or report["verification-results"].get("encountered-vir-error") or not merged:
                message = "; ".join(d["message"] for d in diagnostics[:3]) or "no report"
                results.append(dict(name="verus::" + name, status="undecided", reason="Verus does not accept the extracted text: %s" % message[:300], bounded=False, seconds=seconds, solver=0.0, checks=0, backend="verus / z3"))
                continue
            lines = text.split("\n")
            for function, m in sorted(merged.items()):
                short = function.split("::", 1)[1]
                entry = dict(name="verus::%s::%s" % (name, short), bounded=False, seconds=m["micros"] / 1e6, solver=m["micros"] / 1e6, checks=1, backend="verus / z3")
                if m["success"]:
                    entry["status"] = "discharged"
                else:
                    messages = self.messages(diagnostics, lines, short)
                    entry["failures"] = [(x, "verus", name) for x in messages] or [("obligation not discharged", "verus", name)]
                    changed = self.changed(u, recorded.get(name, {}), short)
                    if any("rlimit" in x or "Resource limit" in x for x in messages):
                        entry["status"], entry["reason"] = "undecided", "the solver ran out of its resource limit"
                    elif not changed:
                        # The text is the verified one, so what it calls or is compared with has changed.
                        entry["status"], entry["reason"] = "undecided", "the proof does not go through although the function is unchanged"
                    elif any(f.hinted() for f in changed):
                        entry["status"], entry["reason"] = "undecided", "the function changed and its invariants or hints do not fit any more"
                    else:
                        entry["status"] = "violated"
                        violation = violation or self.violation(name, short, path, entry, diagnostics)
                results.append(entry)
            self.summary.append(dict(unit=name, functions=sorted("%s: %s" % (f.file, f.path) for f in u.functions), seconds=round(seconds, 1), transformations=TRANSFORMATIONS,
                                     substitutions=sorted(set("%s: %s => %s" % (f.path, " ".join(a), " ".join(b)) for f in u.functions for a, b in f.subs))))
        return results, violation

    def messages(self, diagnostics, lines, short):
        """The failed obligations within a function."""
        name = short.split("::")[-1]
        result = []
        for d in diagnostics:
            for span in d["spans"]:
                if not span["is_primary"] and len(d["spans"]) > 1:
                    continue
                line = span["line_start"] - 1
                while line >= 0 and not re.search(r"\bfn\s+\w+", lines[min(line, len(lines) - 1)]):
                    line -= 1
                where = re.search(r"\bfn\s+(\w+)", lines[line]) if line >= 0 else None
                result.append((where.group(1) if where else "?", "%s: `%s`" % (d["message"], (span["text"][0]["text"].strip() if span["text"] else "")[:200])))
        own = [m for n, m in result if n == name]
        return own or [m for n, m in result]

    def changed(self, u, recorded, short):
        """The changed functions which the failed one consists of; a proof function depends on all."""
        own = [f for f in u.functions if f.name == short.split("::")[-1]]
        return [f for f in (own or u.functions) if recorded.get(f.file + " " + f.path + " " + f.name) != fingerprint(f.text)]

    def violation(self, name, short, path, entry, diagnostics):
        os.makedirs(REPLAYS, exist_ok=True)
        replay = os.path.join(REPLAYS, "verus-%s-%s" % (name, re.sub(r"\W+", ".", short)))
        with open(replay, "w") as f:
            f.write("failed obligation: verus::%s::%s\nextracted text: %s\n" % (name, short, path))
            f.write("check: verus %s --rlimit 60\n\n" % path)
            for d in diagnostics:
                f.write((d.get("rendered") or d["message"]) + "\n")
        return dict(harness=entry["name"], message="; ".join(x[0] for x in entry["failures"])[:400], replay=replay, no_input=True, replay_search=True, obligation=[x[0] for x in entry["failures"]])


def fingerprint(text):
    return hashlib.sha256(text.encode()).hexdigest()[:16]


def record(names):
    """Records the texts of the functions as they are now."""
    recorded = json.load(open(RECORDED)) if os.path.exists(RECORDED) else {}
    for name in names:
        u = Unit(name)
        u.generate()
        recorded[name] = {f.file + " " + f.path + " " + f.name: fingerprint(f.text) for f in u.functions}
    with open(RECORDED, "w") as f:
        json.dump(recorded, f, indent=1, sort_keys=True)
        f.write("\n")
