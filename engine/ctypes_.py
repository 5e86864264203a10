"""C++ type strings as printed by cxx2ir."""
import functools
import re

INTS = {
    "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "long long": 64,
    "unsigned long long": 64, "short": 16, "unsigned short": 16, "char": 8, "unsigned char": 8,
    "signed char": 8, "__int128": 128, "unsigned __int128": 128,
}
REALS = {"float", "double", "long double"}


@functools.lru_cache(None)
def strip_cvref(t):
    t = t.strip()
    while True:
        o = t
        if t.startswith("const "):
            t = t[6:]
        if t.startswith("volatile "):
            t = t[9:]
        for s in (" const", "&&", "&"):
            if t.endswith(s):
                t = t[:-len(s)].strip()
        if t == o:
            return t


@functools.lru_cache(None)
def is_ref(t):
    return t.strip().endswith("&")


@functools.lru_cache(None)
def is_const_ref(t):
    return t.strip().endswith("&") and t.strip().startswith("const ")


@functools.lru_cache(None)
def is_ptr(t):
    return strip_cvref(t).endswith("*")


@functools.lru_cache(None)
def pointee(t):
    return strip_cvref(strip_cvref(t)[:-1])


@functools.lru_cache(None)
def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return tuple(out)


@functools.lru_cache(None)
def parse(t):
    """-> (template name, args) of a type without cv and reference"""
    t = strip_cvref(t)
    i = t.find("<")
    if i < 0 or t.endswith("*"):
        return t, ()
    d = 0
    for j in range(i, len(t)):
        if t[j] == "<":
            d += 1
        elif t[j] == ">":
            d -= 1
            if d == 0:
                break
    rest = t[j + 1:]
    if rest:
        return t[:i] + "<>" + rest, split_args(t[i + 1:j])
    name, args = t[:i], split_args(t[i + 1:j])
    if name == "std::basic_string":
        return "string", ()
    return name, args


def is_int(t):
    return strip_cvref(t) in INTS


def is_unsigned(t):
    t = strip_cvref(t)
    return t.startswith("unsigned") and t in INTS


def bits(t):
    return INTS[strip_cvref(t)]


def is_real(t):
    return strip_cvref(t) in REALS


def is_bool(t):
    return strip_cvref(t) == "bool"


def is_string(t):
    return parse(t)[0] == "string"


@functools.lru_cache(None)
def strip_targs(q):
    """qualified name without template arguments (operator names are kept)"""
    m = re.search(r"operator\s*(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>)$", q)
    tail = ""
    if m:
        tail = q[m.start():]
        q = q[:m.start()]
    out, d = "", 0
    for c in q:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out += c
    out += tail
    return out.replace("::__cxx11", "").replace("std::_V2", "std").replace("std::__1", "std")
