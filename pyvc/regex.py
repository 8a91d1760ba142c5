"""Python strings <-> z3 string literals."""
import re

import z3


def zchar(code):
    if 32 <= code < 127 and chr(code) not in "\\":
        return z3.StringVal(chr(code))
    return z3.StringVal("\\u{%x}" % code)


def zstr(alpha, s):
    s = alpha.enc(s)
    return z3.StringVal("".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s))


def zraw(s):
    """literal of a string that is already in the class alphabet"""
    return z3.StringVal("".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s))


def unz(s):
    """z3 StringVal.as_string() -> python string."""
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
