"""An independent tokenizer for preprocessor output (maximal munch)."""
import re
PUNCT = ["%:%:", "<<=", ">>=", "...", "##", "++", "--", "->", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||",
         "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "::", "<:", ":>", "<%", "%>", "%:"]
RX = re.compile(
    r"(?P<ws>\s+)|(?P<str>(?:u8|u|U|L)?\"(?:\\.|[^\"\\\n])*\")|(?P<chr>(?:u8|u|U|L)?'(?:\\.|[^'\\\n])*')"
    r"|(?P<num>\.?[0-9](?:[eEpP][+-]|'[0-9a-zA-Z_]|[0-9a-zA-Z_.])*)|(?P<id>[A-Za-z_$\x80-\U0010ffff][A-Za-z0-9_$\x80-\U0010ffff]*)"
    r"|(?P<p>" + "|".join(re.escape(p) for p in PUNCT) + r"|.)", re.S)


def lex(s):
    return [m.group() for m in RX.finditer(s) if not m.group("ws")]


def lexk(s):
    r = []
    for m in RX.finditer(s):
        if not m.group("ws"):
            r.append((m.lastgroup, m.group()))
    return r
