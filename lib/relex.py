"""Re-lays out a program: splits it into tokens and joins them with random trivia (blanks, line
breaks, line and nested block comments), with no separator only where the tokens cannot merge."""
import re

OPS = "+-*/%=&^<>|!?.:~"
TOK = re.compile(r"""
    (?P<ws>[ \t\r\n]+) | (?P<com>\#[^\[\n][^\n]*\n?|\#\n) |
    (?P<str>"(?:\\.|[^"\\])*") |
    (?P<carr>'[cC](?!')) |
    (?P<chr>'(?:\\.|[^'\\])') |
    (?P<num>0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(?:\.(?!\.)[0-9_]*)?) |
    (?P<id>(?:@@|[A-Za-z_])(?:[A-Za-z0-9_?']|@@)*(?:!(?!=))?) |
    (?P<op>[-+*/%=&^<>|!?.:~]+) |
    (?P<sym>[(){}\[\],;$@`]|²|³)
    """, re.X | re.S)


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise ValueError("cannot tokenise %r" % text[i:i + 30])
        i = m.end()
        if m.lastgroup not in ("ws", "com"):
            out.append(m.group())
    return out


def is_id(c):
    return c.isalnum() and c.isascii() or c in "_@"


def glued(a, b):
    """would a and b lex differently (or might they) when written without a separator"""
    x, y = a[-1], b[0]
    if is_id(x) or x in "?'!" and is_id(a[0]):
        if is_id(y) or y in "?'!" or (a[0].isdigit() and y == ".") or y == '"' and False:
            return True
    if x in OPS and y in OPS:
        return True
    if x in OPS and y.isdigit() and x == ".":
        return True
    if a == "_" or b == "_":
        return True
    return False


COMMENT_BITS = ["x", " ", "let", ";", "\"", "'", "{", "}", "(", "]", "[", "/*", "*/", "//", "\\", "!", "0x", "é", "if", "<-", "$", "#!", "\t", "...", "`"]


def block_comment(s, depth=0):
    t = "#["
    for _ in range(s.draw(4)):
        m = s.draw(6)
        if m == 5 and depth < 3:
            t += " " + block_comment(s, depth + 1) + " "
        elif m == 4:
            t += "\n"
        elif m == 3:
            t += " # "
        else:
            t += s.pick(COMMENT_BITS) + " "
    if t[-1] in "[#" and len(t) > 2 or t[-1] == "]":
        t += " "
    return t + "]#"


def trivia(s, need):
    """separator text; never empty when need"""
    m = s.draw(12)
    if m < 5:
        return " " if need or m % 2 else ""
    if m == 5:
        return "\n"
    if m == 6:
        return "\t"
    if m == 7:
        return " \r\n\t "
    if m == 8:
        t = "#" + "".join(s.pick(COMMENT_BITS + ["#[ ", "]#"]) for _ in range(s.draw(4)))
        if t.startswith("#["):
            t = "# " + t[1:]
        return " " + t + "\n"
    if m == 9:
        return block_comment(s)
    if m == 10:
        return "\n\n" + block_comment(s) + block_comment(s)
    return " " + block_comment(s) + "\n#\n"


def relayout(s, text):
    ts = tokens(text)
    out = []
    for i, t in enumerate(ts):
        if i:
            out.append(trivia(s, glued(ts[i - 1], t)))
        out.append(t)
    return "".join(out) + "\n"
