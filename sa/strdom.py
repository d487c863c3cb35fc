"""Symbolic strings: concatenations of literals and atoms (basic version)."""
from . import terms
from .terms import Term, concat, is_term


def parts(x):
    if type(x) is Term:
        return list(x._args) if x._op == "concat" else [x]
    return [x] if x != "" else []


def str_eq(prog, a, b):
    """True/False when decided by structure, else None."""
    h = getattr(prog, "str_decide", None)
    if h is not None:
        return h(a, b)
    pa, pb = parts(a), parts(b)
    # common literal prefix mismatch
    la = pa[0] if pa and type(pa[0]) is str else None
    lb = pb[0] if pb and type(pb[0]) is str else None
    if la is not None and lb is not None:
        n = min(len(la), len(lb))
        if la[:n] != lb[:n]:
            return False
    la = pa[-1] if pa and type(pa[-1]) is str else None
    lb = pb[-1] if pb and type(pb[-1]) is str else None
    if la is not None and lb is not None:
        n = min(len(la), len(lb))
        if la[len(la) - n:] != lb[len(lb) - n:]:
            return False
    # cancel common prefix
    while pa and pb:
        x, y = pa[0], pb[0]
        if x is y:
            pa.pop(0)
            pb.pop(0)
            continue
        if type(x) is str and type(y) is str:
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa[0], pb[0] = x[n:], y[n:]
            pa, pb = [p for p in pa if not (type(p) is str and p == "")], [p for p in pb if not (type(p) is str and p == "")]
            continue
        break
    if not pa and not pb:
        return True
    if (not pa or not pb) and any(type(p) is str for p in pa + pb):
        return False
    return None


def join(prog, sep, items):
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(sep)
        out.append(x)
    return concat(*out)


def fmt(prog, s, args, kwargs):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kwargs:
            v = kwargs[field]
        else:
            return Term("strformat", s, tuple(args), tuple(kwargs.items()), ty=str)
        if spec or conv:
            out.append(Term("format", v, conv or "", spec or "", ty=str) if is_term(v) else
                       format(repr(v) if conv == "r" else v, spec or ""))
        else:
            out.append(prog.str_of(v))
    return concat(*out)


def percent(prog, s, args):
    if not isinstance(args, tuple) or is_term(args):
        args = (args,)
    pieces = s.split("%s")
    if len(pieces) == len(args) + 1 and "%" not in "".join(pieces):
        out = []
        for i, x in enumerate(pieces):
            out.append(x)
            if i < len(args):
                out.append(prog.str_of(args[i]))
        return concat(*out)
    return Term("strmod", s, args, ty=str)


def method(prog, recv, name, args, kwargs):
    ps = parts(recv)
    if name in ("startswith",) and len(args) == 1 and type(args[0]) is str:
        if ps and type(ps[0]) is str:
            if len(ps[0]) >= len(args[0]):
                return ps[0].startswith(args[0])
            if not args[0].startswith(ps[0]):
                return False
    if name in ("endswith",) and len(args) == 1 and type(args[0]) is str:
        if ps and type(ps[-1]) is str:
            if len(ps[-1]) >= len(args[0]):
                return ps[-1].endswith(args[0])
            if not args[0].endswith(ps[-1]):
                return False
    if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], tuple) and not is_term(args[0]):
        rs = []
        for a in args[0]:
            r = method(prog, recv, name, (a,), {})
            if r is NotImplemented:
                r = prog.term_call(Term("attr", recv if is_term(recv) else Term("const", recv, ty=str), name), (a,), {})
            if prog.cond(r):
                return True
        return False
    if name in ("removeprefix",) and type(args[0]) is str and ps and type(ps[0]) is str and ps[0].startswith(args[0]):
        return concat(ps[0][len(args[0]):], *ps[1:])
    if name in ("removesuffix",) and type(args[0]) is str and ps and type(ps[-1]) is str and ps[-1].endswith(args[0]):
        return concat(*ps[:-1], ps[-1][:len(ps[-1]) - len(args[0])])
    return NotImplemented


def contains(prog, c, x):
    if type(x) is str:
        for p in parts(c):
            if type(p) is str and x in p:
                return True
    return NotImplemented
