"""
Symbolic text: a sequence of literal parts and atoms.  An atom is an arbitrary string (seen through a homomorphism: the
single-character replacements applied to it so far), the decimal rendering of a symbolic number, or opaque text.
A `for` loop over an atom is verified by induction over its characters (see vc_loop).
"""
from . import *
import z3
from . import core
from .core import Unsupported, PathEnd, pyraise
from .values import Sym, SInt, SReal, SBool, SVal, mkint, mkbool, mkreal, zint, lit, is_sym, val_sort

ALPHABET = {"int": "0123456789-", "real": "0123456789-+.einfa"}


class Atom:
    """kind: any (arbitrary), int, real, opaque; `nonempty` parts of an arbitrary string arise inside loops"""
    __slots__ = ("kind", "var", "subst", "nonempty", "tag")

    def __init__(self, kind, var, subst=(), nonempty=False, tag=None):
        self.kind, self.var, self.subst, self.nonempty, self.tag = kind, var, tuple(subst), nonempty, tag

    def same(self, o):
        return isinstance(o, Atom) and self.kind == o.kind and z3.eq(self.var, o.var) and self.subst == o.subst and self.tag == o.tag

    def image(self, ch):
        """the text that one character of the underlying string became"""
        s = ch
        for old, new in self.subst:
            s = s.replace(old, new)
        return s

    def specials(self):
        return sorted({c for old, _ in self.subst for c in old})

    def may_contain(self, ch):
        if self.kind in ALPHABET:
            return ch in ALPHABET[self.kind]
        if self.kind == "opaque":
            return True
        if any(ch in self.image(s) for s in self.specials()):
            return True
        return ch not in self.specials()

    def __repr__(self):
        return f"<{self.kind}:{self.var}{list(self.subst) if self.subst else ''}>"


def any_string(name, nonempty=False):
    c = core.ctx()
    v = z3.Const(c.name(name), val_sort())
    if nonempty:
        c.assume(v != lit(""))
    return SStr([Atom("any", v, nonempty=nonempty)])


def known_empty(atom):
    c = core.ctx()
    return any(z3.eq(v, atom.var) for v in c.__dict__.setdefault("_empty", []))


def set_empty(atom):
    c = core.ctx()
    c.assume(atom.var == lit(""))
    c.__dict__.setdefault("_empty", []).append(atom.var)


def known_nonempty(atom):
    if atom.nonempty or atom.kind in ("int", "real"):
        return True
    c = core.ctx()
    return any(z3.eq(v, atom.var) for v in c.__dict__.setdefault("_nonempty", []))


class SChar(Sym):
    """one character of which only the code point is known (symbolically)"""
    __slots__ = ("e",)
    pytype = str

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SChar({self.e})"

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is SChar:
            return mkbool(self.e == o.e)
        if type(o) is str:
            return mkbool(self.e == ord(o)) if len(o) == 1 else False
        if type(o) is SStr:
            return o == self
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if type(r) is bool else mkbool(z3.Not(r.e))

    __hash__ = Sym.__hash__

    def vc_len(self):
        return 1

    def __bool__(self):
        return True

    def __add__(self, o):
        return join("", [self, o])

    def __radd__(self, o):
        return join("", [o, self])

    def _classify(self, name):
        raise Unsupported(f"str.{name} of an arbitrary character")

    def isspace(self):
        return mkbool(z3.Or([self.e == ord(x) for x in " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"]))

    def isdigit(self):
        self._classify("isdigit")

    def __contains__(self, o):
        return True if self == o else False


class SStr(Sym):
    __slots__ = ("parts",)
    pytype = str

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and type(p) is str:
                if not p:
                    continue
                if out and type(out[-1]) is str:
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(p)
        self.parts = tuple(out)

    @staticmethod
    def of(s):
        if type(s) is SStr:
            return s
        if type(s) is str:
            return SStr([s])
        if type(s) is SChar:
            return SStr([s])
        if is_sym(s) and s.__class__ is str:
            return SStr([Atom("opaque", s.e)]) if hasattr(s, "e") else Unsupported
        pyraise(TypeError(f"str expected, not {type(s).__name__}"))

    def norm(self):
        return SStr([p for p in self.parts if not (isinstance(p, Atom) and known_empty(p))])

    def text(self):
        """the concrete text, if there is no atom"""
        s = self.norm()
        if all(type(p) is str for p in s.parts):
            return "".join(s.parts)
        return None

    def __repr__(self):
        return f"SStr{list(self.parts)}"

    __hash__ = Sym.__hash__

    def __bool__(self):
        s = self.norm()
        if not s.parts:
            return False
        for p in s.parts:
            if type(p) in (str, SChar) or isinstance(p, Atom) and known_nonempty(p):
                return True
        for p in s.parts:
            if not split_empty(p):
                return True
        return False

    def vc_len(self):
        t = self.text()
        if t is not None:
            return len(t)
        raise Unsupported("length of symbolic text")

    def __str__(self):
        return repr(self)

    # ----- comparison
    def __eq__(self, o):
        if self is o:
            return True
        if not (type(o) in (str, SStr, SChar)):
            return False
        a, b = list(self.norm().parts), list(SStr.of(o).norm().parts)
        a, b = strip_common(a, b)
        if not a and not b:
            return True
        for x, y in ((a, b), (b, a)):
            if not x:
                # the other must be empty
                if any(type(p) in (str, SChar) or known_nonempty(p) for p in y):
                    return False
        ta, tb = "".join(a) if all(type(p) is str for p in a) else None, "".join(b) if all(type(p) is str for p in b) else None
        if ta is not None and tb is not None:
            return ta == tb
        if type_first_mismatch(a, b) or type_first_mismatch(a[::-1], b[::-1], True):
            return False
        for x, t in ((a, tb), (b, ta)):
            if t is not None:
                if any(isinstance(p, Atom) and p.kind in ALPHABET for p in x) and len(x) == 1 and any(ch not in ALPHABET[x[0].kind] for ch in t):
                    return False
                lits = sum(len(p) for p in x if type(p) is str)
                if lits > len(t):
                    return False
                if len(x) == 1 and isinstance(x[0], Atom) and x[0].kind == "any" and not x[0].subst:
                    return mkbool(x[0].var == lit(t))
                if len(x) == 1 and type(x[0]) is SChar and len(t) == 1:
                    return mkbool(x[0].e == ord(t))
                if not t:
                    return not bool(SStr(x))
        if len(a) == 1 and len(b) == 1 and isinstance(a[0], Atom) and isinstance(b[0], Atom):
            p, q = a[0], b[0]
            if p.kind == q.kind and p.subst == q.subst and p.tag == q.tag and p.kind in ("any", "int", "opaque"):
                return mkbool(p.var == q.var)
        raise Unsupported(f"comparison of {self!r} and {o!r}")

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if type(r) is bool else mkbool(z3.Not(r.e))

    # ----- operations
    def __add__(self, o):
        return join("", [self, o])

    def __radd__(self, o):
        return join("", [o, self])

    def join(self, items):
        return join(self, list(items))

    def startswith(self, prefix):
        if type(prefix) is tuple:
            return any(self.startswith(p) for p in prefix)
        if type(prefix) is not str:
            raise Unsupported("startswith symbolic")
        if not prefix:
            return True
        s = self.norm()
        rest = prefix
        for p in s.parts:
            if type(p) is str:
                n = min(len(p), len(rest))
                if p[:n] != rest[:n]:
                    return False
                rest = rest[n:]
                if not rest:
                    return True
            elif type(p) is SChar:
                if not (p == rest[0]):
                    return False
                rest = rest[1:]
                if not rest:
                    return True
            elif p.kind in ALPHABET:
                if rest[0] not in ALPHABET[p.kind]:
                    return False
                raise Unsupported("startswith of a number")
            else:
                if p.kind == "any" and not p.subst and len(rest) >= 1:
                    # an arbitrary string: both outcomes
                    return mkbool(z3.Function(f"startswith[{rest}]", val_sort(), z3.BoolSort())(p.var)) if len(s.parts) == 1 else _unsup("startswith")
                raise Unsupported("startswith of an atom")
        return False

    def endswith(self, suffix):
        if type(suffix) is tuple:
            return any(self.endswith(p) for p in suffix)
        if not suffix:
            return True
        s = self.norm()
        rest = suffix
        for p in reversed(s.parts):
            if type(p) is str:
                n = min(len(p), len(rest))
                if p[len(p) - n:] != rest[len(rest) - n:]:
                    return False
                rest = rest[:len(rest) - n]
                if not rest:
                    return True
            elif type(p) is not SChar and p.kind in ALPHABET and rest[-1] not in ALPHABET[p.kind]:
                return False
            elif type(p) is not SChar and p.kind == "any" and not p.subst and len(s.parts) == 1:
                return mkbool(z3.Function(f"endswith[{rest}]", val_sort(), z3.BoolSort())(p.var))
            else:
                raise Unsupported("endswith of an atom")
        return False

    def replace(self, old, new, count=-1):
        if is_sym(old) or is_sym(new) or count != -1 or len(old) != 1:
            raise Unsupported("replace other than of one literal character")
        out = []
        for p in self.norm().parts:
            if type(p) is str:
                out.append(p.replace(old, new))
            elif type(p) is SChar:
                out.append(new if p == old else p)
            elif not p.may_contain(old):
                out.append(p)
            elif p.kind == "any":
                out.append(Atom("any", p.var, (*p.subst, (old, new)), p.nonempty, p.tag))
            else:
                raise Unsupported("replace in a number")
        return SStr(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != -1 or len(sep) != 1:
            raise Unsupported("split")
        out, cur = [], []
        for p in self.norm().parts:
            if type(p) is str:
                first, *more = p.split(sep)
                cur.append(first)
                for m in more:
                    out.append(cur)
                    cur = [m]
            else:
                if type(p) is SChar or p.may_contain(sep):
                    raise Unsupported(f"split at a character that {p!r} may contain")
                cur.append(p)
        out.append(cur)
        return [fold_text(SStr(x)) for x in out]

    def splitlines(self, keepends=False):
        if keepends:
            raise Unsupported("splitlines")
        for p in self.norm().parts:
            if type(p) is not str and (type(p) is SChar or any(p.may_contain(ch) for ch in "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")):
                raise Unsupported("splitlines of an arbitrary string")
        return self.split("\n")

    def strip(self, chars=None):
        return SStr.of(self.lstrip(chars)).rstrip(chars)

    def lstrip(self, chars=None):
        parts = list(self.norm().parts)
        while parts:
            p = parts[0]
            if type(p) is str:
                q = p.lstrip(chars)
                if q:
                    parts[0] = q
                    break
                parts.pop(0)
            elif isinstance(p, Atom) and p.kind in ALPHABET and (chars is None or not any(ch in ALPHABET[p.kind] for ch in chars)):
                break
            elif isinstance(p, Atom) and p.kind in ALPHABET and chars is not None and set(chars) <= set("+-"):
                parts[0] = Atom(p.kind, p.var, p.subst, p.nonempty, tag=("lstrip", chars, p.tag))
                break
            else:
                raise Unsupported("strip of an arbitrary string")
        return fold_text(SStr(parts))

    def rstrip(self, chars=None):
        parts = list(self.norm().parts)
        while parts:
            p = parts[-1]
            if type(p) is str:
                q = p.rstrip(chars)
                if q:
                    parts[-1] = q
                    break
                parts.pop()
            elif isinstance(p, Atom) and p.kind in ALPHABET and (chars is None or not any(ch in ALPHABET[p.kind] for ch in chars)):
                break
            elif isinstance(p, Atom) and p.kind == "any" and not p.subst and len(parts) == 1 and type(chars) is str:
                # an arbitrary string without its trailing characters: some string determined by it
                parts = [Atom("any", z3.Function(f"rstrip[{chars!r}]", val_sort(), val_sort())(p.var))]
                break
            else:
                raise Unsupported("strip of an arbitrary string")
        return fold_text(SStr(parts))

    def lower(self):
        out = []
        for p in self.norm().parts:
            if type(p) is str:
                out.append(p.lower())
            elif isinstance(p, Atom) and p.kind in ALPHABET:
                out.append(p)
            else:
                raise Unsupported("lower of an arbitrary string")
        return SStr(out)

    def find(self, sub):
        raise Unsupported("find in symbolic text")

    index = count = format = find

    def encode(self, *args):
        raise Unsupported("encode of symbolic text")

    def __contains__(self, sub):
        if type(sub) is SChar or is_sym(sub):
            raise Unsupported("symbolic substring test")
        s = self.norm()
        for p in s.parts:
            if type(p) is str and sub in p:
                return True
        maybe = False
        for p in s.parts:
            if type(p) is SChar:
                if len(sub) == 1 and p == sub:
                    return True
                maybe = maybe or len(sub) != 1
            elif isinstance(p, Atom):
                if p.kind == "real" and len(sub) == 1 and p.tag is None:
                    if sub in ".e":
                        c = core.ctx()
                        dot = z3.Function("has_dot", z3.RealSort(), z3.BoolSort())(p.var)
                        ex = z3.Function("has_exp", z3.RealSort(), z3.BoolSort())(p.var)
                        c.assume(z3.Or(dot, ex))   # repr of a finite float
                        if c.branch(dot if sub == "." else ex, f"{sub!r} in repr"):
                            return True
                    elif sub in "infa":
                        continue   # finite
                    elif sub in ALPHABET["real"]:
                        maybe = True
                elif p.kind in ALPHABET:
                    maybe = maybe or all(ch in ALPHABET[p.kind] for ch in sub)
                elif len(sub) == 1:
                    maybe = maybe or p.may_contain(sub)
                else:
                    maybe = True
        if maybe or len(sub) > 1 and len(s.parts) > 1:
            raise Unsupported(f"substring test on {self!r}")
        return False

    def __getitem__(self, idx):
        parts = list(self.norm().parts)
        if type(idx) is not slice:
            if idx == 0 and parts and type(parts[0]) in (str, SChar):
                return parts[0][0] if type(parts[0]) is str else parts[0]
            if idx == -1 and parts and type(parts[-1]) in (str, SChar):
                return parts[-1][-1] if type(parts[-1]) is str else parts[-1]
            raise Unsupported("index into symbolic text")
        if idx.step is not None:
            raise Unsupported("text slice with a step")
        lo, hi = idx.start or 0, idx.stop
        if lo < 0 or hi is not None and hi >= 0:
            raise Unsupported("text slice")

        def drop(parts, n, front):
            while n:
                if not parts:
                    return
                k = 0 if front else -1
                p = parts[k]
                if type(p) is str:
                    m = min(n, len(p))
                    n -= m
                    q = p[m:] if front else p[:len(p) - m]
                    if q:
                        parts[k] = q
                    else:
                        parts.pop(k)
                elif type(p) is SChar:
                    n -= 1
                    parts.pop(k)
                else:
                    raise Unsupported("slice inside of an atom")
        drop(parts, lo, True)
        if hi is not None:
            drop(parts, -hi, False)
        return fold_text(SStr(parts))

    def vc_int(self):
        s = self.norm()
        if len(s.parts) == 1 and isinstance(s.parts[0], Atom):
            p = s.parts[0]
            if p.kind == "int" and p.tag is None:
                return mkint(p.var)
            if p.kind == "real":
                pyraise(ValueError("invalid literal for int()"))
        raise Unsupported("int of symbolic text")

    def vc_float(self):
        s = self.norm()
        if len(s.parts) == 1 and isinstance(s.parts[0], Atom):
            p = s.parts[0]
            if p.tag is None and p.kind == "real":
                return mkreal(p.var)
            if p.tag is None and p.kind == "int":
                return mkreal(z3.ToReal(p.var))
        raise Unsupported("float of symbolic text")

    def __iter__(self):
        for p in self.norm().parts:
            if type(p) in (str, SChar):
                yield from ([p] if type(p) is SChar else p)
            else:
                raise Unsupported("native iteration over an arbitrary string")

    # ----- loop contract: induction over the characters of every atom
    def vc_loop(self, loop):
        c = core.ctx()
        for n, p in enumerate(self.norm().parts):
            if type(p) is SChar:
                yield p
                loop.vars = {}
            elif type(p) is str:
                for ch in p:
                    yield ch
                    loop.vars = {}
            else:
                yield from atom_loop(c, loop, n, p)


def _unsup(what):
    raise Unsupported(f"{what} of symbolic text")


def split_empty(atom):
    """fork on the emptiness of an arbitrary string"""
    if known_empty(atom):
        return True
    if known_nonempty(atom):
        return False
    c = core.ctx()
    if c.branch(atom.var == lit(""), "empty string"):
        set_empty(atom)
        return True
    c.__dict__.setdefault("_nonempty", []).append(atom.var)
    return False


def atom_loop(c, loop, n, atom):
    """
    Loop contract for the characters of an arbitrary string x inside of the traversed text:
      invariant: the locals are as before the first character of (the image of) x, except that one list has been
      extended with what has been read of x so far.
    Establish: nothing read.  Step: from the invariant after an arbitrary prefix (empty or not), the image of one
    arbitrary character leads to the invariant for the prefix extended with that character.  Exit: all of x is read.
    """
    if atom.kind == "opaque":
        raise Unsupported("loop over opaque text")
    if split_empty(atom):
        return
    before = loop.locals()
    names = sorted(set(loop.assigned) | set(loop.used))
    state = {k: before[k] for k in names if k in before}
    key = (c.harness, loop.file, loop.line, n, str(atom.var), _state_shape(state))
    memo = c.engine.memo
    specials = atom.specials()
    classes = ["probe"] + [(pre, ch) for pre in (False, True) for ch in (*specials, None)] + ["exit"]
    k = c.choice(len(classes), f"loop@{loop.line}")
    cls = classes[k]
    if cls == "exit":
        acc = memo.get(key)
        if acc is None:
            raise Unsupported("the loop does not accumulate the characters in one list")
        loop.vars = {acc: [*state[acc], SStr([Atom(atom.kind, atom.var, (), True, atom.tag)])]}
        # the body is not run: the rewritten loop picks `vars` up before the next iteration (or at the end)
        _retarget(loop, state, acc)
        return
    prefix_nonempty, ch = (False, None) if cls == "probe" else cls
    acc = memo.get(key)
    if cls != "probe" and acc is None:
        raise PathEnd()
    start = {name: (list(v) if type(v) is list else v) for name, v in state.items()}
    if prefix_nonempty:
        pre = SStr([Atom(atom.kind, z3.Const(c.name("prefix"), atom.var.sort()), (), True, atom.tag)])
        start[acc] = [*start[acc], pre]
        loop.vars = {acc: list(start[acc])}
        _retarget(loop, state, acc)
    if ch is None:
        cp = c.int("char", 0, 0x10FFFF)
        if atom.kind in ALPHABET:
            c.assume(z3.Or([cp == ord(x) for x in ALPHABET[atom.kind]]))
        for s in specials:
            c.assume(cp != ord(s))
        one = SChar(cp)
        image = [one]
    else:
        one = ch
        image = list(atom.image(ch))
    for x in image:
        yield x
        loop.vars = {}
    after = loop.locals()
    grown = [k for k, v in start.items() if type(v) is list and k in loop_state(after, start)
             and type(after[k]) is list and len(after[k]) == len(v) + 1]
    changed = [k for k, v in start.items() if not _same(after.get(k), v)]
    if cls == "probe":
        if len(grown) == 1:
            memo[key] = grown[0]
        raise PathEnd()
    ok = changed == [acc] and grown == [acc] and _same(after[acc][:-1], start[acc])
    if ok:
        last = after[acc][-1]
        eq = (last == one)
        ok = eq if type(eq) is bool else eq.e
    desc = f"character {ch!r}" if ch is not None else "any other character"
    c.prove(f"loop over the characters of an arbitrary string ({'non-empty' if prefix_nonempty else 'empty'} prefix, {desc}): "
            f"exactly this character is appended to the token and nothing else changes", ok)
    raise PathEnd()


def loop_state(after, start):
    return {k for k in start if k in after}


def _retarget(loop, state, acc):
    """the accumulated list must not be shared with another local"""
    for k, v in state.items():
        if k != acc and v is state[acc]:
            raise Unsupported("the accumulating list is aliased")


def _state_shape(state):
    return tuple(sorted((k, type(v).__name__, len(v) if type(v) is list else None) for k, v in state.items()
                        if type(v) in (list, bool, int, str, type(None))))


def _same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if type(a) in (str, int, bool, float, type(None)):
        return a == b
    if type(a) is SStr:
        return len(a.parts) == len(b.parts) and all(
            p == q if type(p) is str else (p is q or isinstance(p, Atom) and p.same(q)) for p, q in zip(a.parts, b.parts))
    return a is b


def strip_common(a, b):
    a, b = list(a), list(b)
    for front in (True, False):
        while a and b:
            i = 0 if front else -1
            x, y = a[i], b[i]
            if type(x) is str and type(y) is str:
                n = 0
                m = min(len(x), len(y))
                while n < m and (x[n] == y[n] if front else x[-1 - n] == y[-1 - n]):
                    n += 1
                if n == 0:
                    break
                x2, y2 = (x[n:], y[n:]) if front else (x[:len(x) - n], y[:len(y) - n])
                for lst, z in ((a, x2), (b, y2)):
                    if z:
                        lst[i] = z
                    else:
                        lst.pop(i)
                if x2 and y2:
                    break
            elif isinstance(x, Atom) and x.same(y) or type(x) is SChar and type(y) is SChar and z3.eq(x.e, y.e):
                a.pop(i)
                b.pop(i)
            else:
                break
    return a, b


def type_first_mismatch(a, b, rev=False):
    """the first (last) characters certainly differ"""
    if not a or not b:
        return False
    for x, y in ((a[0], b[0]), (b[0], a[0])):
        if type(x) is str:
            ch = x[-1] if rev else x[0]
            if type(y) is str:
                return ch != (y[-1] if rev else y[0])
            if isinstance(y, Atom) and y.kind in ALPHABET and ch not in ALPHABET[y.kind]:
                return True
    return False


def fold_text(s):
    t = s.text()
    return t if t is not None else s


def join(sep, items):
    out = []
    for i, x in enumerate(items):
        if i and (type(sep) is not str or sep):
            out.extend(SStr.of(sep).parts)
        if type(x) is str:
            out.append(x)
        elif type(x) is SStr:
            out.extend(x.parts)
        elif type(x) is SChar:
            out.append(x)
        elif is_sym(x) and x.__class__ is str and hasattr(x, "e"):
            out.append(Atom("opaque", x.e))
        else:
            pyraise(TypeError(f"sequence item {i}: expected str instance"))
    return fold_text(SStr(out))


def to_text(v):
    t = type(v)
    if t in (SStr, SChar):
        return v
    if t is SInt:
        return SStr([Atom("int", v.e)])
    if t is SReal:
        return SStr([Atom("real", v.e)])
    if t is SBool:
        return "True" if v else "False"
    f = getattr(t, "vc_str", None)
    if f is not None:
        return f(v)
    if t is SVal and v.__class__ is str:
        return SStr([Atom("opaque", v.e)])
    return opaque_text(v)


def opaque_text(v):
    c = core.ctx()
    return SStr([Atom("opaque", z3.Const(c.name("text"), val_sort()))])
