"""Finds functions and types in Rust sources and rewrites them, token by token, for the Verus layer."""
import re


class Lost(Exception):
    """What is looked for isn't in the source in the expected form."""


TOKEN = re.compile(r"""
    (?P<ws>\s+|//[^\n]*)
  | (?P<block>/\*)
  | (?P<raw>b?r\#*")
  | (?P<str>b?"(?:[^"\\]|\\.)*")
  | (?P<char>b?'(?:[^'\\\n]|\\(?:[^xu]|x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}))')
  | (?P<life>'[A-Za-z_]\w*)
  | (?P<num>[0-9](?:[0-9A-Za-z_]|\.(?=[0-9]))*)
  | (?P<id>[A-Za-z_]\w*)
  | (?P<op>\.\.=|\.\.|->|=>|::|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\|=|&=|\^=|.)
""", re.X | re.S)

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def tokenize(text):
    """Tokens as strings; comments and whitespace vanish, but line breaks are kept as a property of the token list."""
    tokens, pos = [], 0
    while pos < len(text):
        m = TOKEN.match(text, pos)
        kind = m.lastgroup
        end = m.end()
        if kind == "block":
            depth = 1
            while depth:
                m2 = re.compile(r"/\*|\*/").search(text, end)
                if not m2:
                    raise Lost("unterminated comment")
                depth += 1 if m2.group() == "/*" else -1
                end = m2.end()
        elif kind == "raw":
            closing = '"' + "#" * m.group().count("#")
            end = text.index(closing, end) + len(closing)
            tokens.append(text[pos:end])
        elif kind != "ws":
            tokens.append(m.group())
        pos = end
    return tokens


def match(tokens, i):
    """The index of the bracket which closes the one at `i`."""
    depth = 0
    while i < len(tokens):
        if tokens[i] in OPEN:
            depth += 1
        elif tokens[i] in CLOSE:
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise Lost("unbalanced brackets")


def back(tokens, i):
    """The index of the bracket which opens the one at `i`."""
    depth = 0
    while i >= 0:
        if tokens[i] in CLOSE:
            depth += 1
        elif tokens[i] in OPEN:
            depth -= 1
            if depth == 0:
                return i
        i -= 1
    raise Lost("unbalanced brackets")


WORD = re.compile(r"[\w\"']")


def render(tokens):
    """Source text; a line break after every brace and semicolon."""
    out, depth, line = [], 0, ""
    for i, t in enumerate(tokens):
        if t == "}":
            if line.strip():
                out.append("    " * depth + line.strip())
            line = ""
            depth = max(0, depth - 1)
        if line and (WORD.match(t[0]) and WORD.match(line[-1]) or (line[-1] not in "([.&:!*" and t not in (",", ";", ")", "]", ".", "(", "[", "?", "::", ":", "<", ">")) or t in ("..",) and line[-1] not in "[("):
            line += " "
        elif line and t in ("<",) and WORD.match(line[-1]) is None and not line.endswith("::"):
            line += " "
        elif line and t[0] in "=<>&|" and line[-1] in "=<>&|-+":
            line += " "
        line += t
        if t in ("{", ";") or t == "}" and not (i + 1 < len(tokens) and tokens[i + 1] in ("else", ",", ")", ";", ".", "?")):
            out.append("    " * depth + line.strip())
            line = ""
            if t == "{":
                depth += 1
    if line.strip():
        out.append("    " * depth + line.strip())
    return "\n".join(out)


class Item:
    def __init__(self, kind, name, header, body, attributes):
        self.kind, self.name, self.header, self.body, self.attributes = kind, name, header, body, attributes

    def children(self):
        return items(self.body)


def items(tokens):
    """The items of a module, an impl or a trait."""
    result, i = [], 0
    while i < len(tokens):
        attributes = []
        while i < len(tokens) and tokens[i] == "#":
            j = i + 1
            if j < len(tokens) and tokens[j] == "!":
                j += 1
            end = match(tokens, j)
            attributes.append(" ".join(tokens[j + 1:end]))
            i = end + 1
        if i >= len(tokens):
            break
        start = i
        kind = name = None
        body = None
        depth = 0
        # A `{` which follows `=` in a constant is an expression; only the first item keyword counts.
        while i < len(tokens):
            t = tokens[i]
            if kind is None and t in ("fn", "impl", "trait", "mod", "struct", "enum", "union", "use", "type", "static", "macro_rules", "extern") or t == "const" and kind is None and tokens[i + 1] not in ("fn", "unsafe"):
                kind = t
                if t == "macro_rules":
                    name = tokens[i + 2]
                elif t == "impl":
                    name = ""
                else:
                    name = tokens[i + 1]
            if t in ("(", "[") or t == "{" and kind in ("use", "const", "static", "type"):
                i = match(tokens, i)
            elif t == "{":
                end = match(tokens, i)
                header, body = tokens[start:i], tokens[i + 1:end]
                i = end + 1
                if i < len(tokens) and tokens[i] == ";" and kind is None:
                    i += 1
                break
            elif t == ";":
                header = tokens[start:i]
                i += 1
                break
            i += 1
        else:
            header = tokens[start:]
        result.append(Item(kind, name, header, body, attributes))
    return result


def tests(item):
    return any(a.replace(" ", "") in ("test", "cfg(test)") for a in item.attributes)


def normalized(text):
    return " ".join(tokenize(text))


def split_at(tokens, separator):
    parts, part, i = [], [], 0
    while i < len(tokens):
        if tokens[i] in OPEN:
            end = match(tokens, i)
            part += tokens[i:end + 1]
            i = end + 1
        elif tokens[i] == separator:
            parts.append(part)
            part = []
            i += 1
        else:
            part.append(tokens[i])
            i += 1
    return parts + [part] if part else parts


def bind(pattern, arguments):
    """Matches a macro's pattern of the forms `$a:kind, $b:kind` and `$($a:kind),+`."""
    if pattern[:2] == ["$", "("]:
        end = match(pattern, 1)
        if pattern[end + 1:] not in ([",", "+"], [",", "*"]):
            raise Lost("a macro pattern of an unknown form")
        repeated = [bind(pattern[2:end], a) for a in split_at(arguments, ",")]
        return {name: [r[name] for r in repeated] for name in (repeated[0] if repeated else {})}
    names = split_at(pattern, ",")
    values = split_at(arguments, ",")
    if len(names) != len(values) or any(len(n) != 4 or n[0] != "$" or n[2] != ":" for n in names):
        raise Lost("a macro pattern of an unknown form")
    return {n[1]: v for n, v in zip(names, values)}


def transcribe(tokens, values):
    out, i = [], 0
    while i < len(tokens):
        if tokens[i] == "$" and tokens[i + 1] == "(":
            end = match(tokens, i + 1)
            inner = tokens[i + 2:end]
            separator, i = (None, end + 2) if tokens[end + 1] in ("+", "*") else (tokens[end + 1], end + 3)
            used = [v for v in values if isinstance(values[v], list) and any(inner[k:k + 2] == ["$", v] for k in range(len(inner)))]
            used = [v for v in used if values[v] and isinstance(values[v][0], list)]
            for n in range(len(values[used[0]]) if used else 0):
                if n and separator:
                    out.append(separator)
                out += transcribe(inner, dict(values, **{v: values[v][n] for v in used}))
        elif tokens[i] == "$" and tokens[i + 1] in values:
            out += values[tokens[i + 1]]
            i += 2
        else:
            out.append(tokens[i])
            i += 1
    return out


def expand(level, name, arguments):
    """The items which an invocation of a macro of this file stands for; it has to be invoked that way."""
    found = [i for i in level if i.kind == "macro_rules" and i.name == name]
    if len(found) != 1:
        raise Lost("%d macros are called `%s`" % (len(found), name))
    if not any(i.header[:3] == [name, "!", "("] and i.header[3:match(i.header, 2)] == arguments for i in level if len(i.header) > 3):
        raise Lost("`%s!( %s )` is not invoked" % (name, " ".join(arguments)))
    for rule in split_at(found[0].body, ";"):
        end = match(rule, 0)
        try:
            values = bind(rule[1:end], arguments)
        except Lost:
            continue
        return items(transcribe(rule[end + 2:][1:-1], values))
    raise Lost("no rule of `%s` fits" % name)


def find(source, path):
    """`path` is a sequence such as `impl CircularBuffer / fn consume`: for `impl` and `trait` the whole header up to
    the where clause has to be the given one; for others kind and name."""
    level = [i for i in items(source) if not tests(i)]
    item = None
    for step in [s.strip() for s in path.split(" / ")]:
        words = tokenize(step)
        if words[0] == "macro":
            level = expand(level, words[1], words[3:-1])
            continue
        if words[0] in ("impl", "trait") and len(words) > 1:
            found = [i for i in level if i.kind == words[0] and until_where(i.header) == words]
        else:
            found = [i for i in level if i.kind == words[0] and i.name == words[1]]
        if not found or len(found) > 1 and words[0] != "impl":
            raise Lost("%d items are called `%s`" % (len(found), step))
        item = found[0]
        level = []
        for i in found:
            if i.body is not None and i.kind in ("impl", "trait", "mod"):
                level += [j for j in i.children() if not tests(j)]
    return item


def until_where(header):
    header = header[:]
    while header and (header[0] == "pub" or header[0] == "unsafe"):
        header = header[1:]
        if header and header[0] == "(":
            header = header[match(header, 0) + 1:]
    if "where" in header:
        header = header[:header.index("where")]
    return header
