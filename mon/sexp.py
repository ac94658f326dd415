"""S-expression reader for SMT-LIB and Racket text.

Atoms are `Sym` (a str subclass); strings become `Str`; lists are Python lists.
`read_all(text)` is strict: unbalanced text raises ReadError.
"""


class ReadError(Exception):
    pass


class Sym(str):
    __slots__ = ()

    def __repr__(self):
        return str(self)


class Str(str):
    __slots__ = ()


OPEN = {"(": ")", "[": "]", "{": "}"}
DELIM = set("()[]{}\"';` \t\r\n")


def read_all(text, racket=False):
    pos, n = 0, len(text)
    out, stack, closers = [], [], []
    cur = out
    quotes = []          # pending quote markers per depth

    def emit(x):
        nonlocal cur
        while quotes and quotes[-1][0] == len(stack):
            x = [Sym(quotes.pop()[1]), x]
        cur.append(x)

    while pos < n:
        ch = text[pos]
        if ch.isspace():
            pos += 1
        elif ch == ";":
            while pos < n and text[pos] != "\n":
                pos += 1
        elif ch == "#" and racket and text[pos:pos + 2] == "#;":
            raise ReadError("datum comment")
        elif ch in OPEN:
            stack.append(cur)
            closers.append(OPEN[ch])
            cur = []
            pos += 1
        elif ch in ")]}":
            if not stack or closers[-1] != ch:
                raise ReadError(f"unexpected {ch} at {pos}: ...{text[max(0,pos-60):pos+1]}")
            if quotes and quotes[-1][0] == len(stack):
                raise ReadError("dangling quote")
            closers.pop()
            x, cur = cur, stack.pop()
            emit(x)
            pos += 1
        elif ch == '"':
            j = pos + 1
            buf = []
            while True:
                if j >= n:
                    raise ReadError("unterminated string")
                if text[j] == "\\" and racket:
                    buf.append(text[j + 1])
                    j += 2
                    continue
                if text[j] == '"':
                    break
                buf.append(text[j])
                j += 1
            emit(Str("".join(buf)))
            pos = j + 1
        elif ch in "'`," and racket:
            quotes.append((len(stack), {"'": "quote", "`": "quasiquote", ",": "unquote"}[ch]))
            pos += 1
        elif ch == "|":
            j = text.find("|", pos + 1)
            if j < 0:
                raise ReadError("unterminated |")
            emit(Sym(text[pos + 1:j]))
            pos = j + 1
        else:
            j = pos
            while j < n and text[j] not in DELIM:
                j += 1
            emit(Sym(text[pos:j]))
            pos = j
    if stack:
        raise ReadError("missing closing parenthesis")
    if quotes:
        raise ReadError("dangling quote")
    return out


def read_one(text, racket=False):
    xs = read_all(text, racket)
    if len(xs) != 1:
        raise ReadError(f"{len(xs)} forms instead of one in {text[:200]!r}")
    return xs[0]


def show(x):
    if isinstance(x, list):
        return "(" + " ".join(show(y) for y in x) + ")"
    return '"%s"' % x if isinstance(x, Str) else str(x)
