"""P15 scopes and name spaces: Scopes.tla; translation units compiled by slimcc check what every name denotes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

POOLS = [["a", "b", "c", "d"], ["a", "b", "c", "d"], ["ab", "ba", "abc", "abcd"], ["name_a", "name_b", "name_ab", "name_"],
         ["a_rather_long_identifier", "a_rather_long_identifier1", "a_rather_long_identifie", "A_rather_long_identifier"],
         ["\u00e9t\u00e9", "\u00e9t", "\u03b1", "\u03b1\u03b2"], ["_", "_a", "a_", "T"]]
INTS = {"int": 4, "long": 8, "short": 2, "unsigned": 4}


class TU:
    def __init__(self, r, gcc):
        self.r, self.gcc = r, gcc
        self.ev, self.D, self.k = [], {}, 0
        self.names = NAMES = r.choice(POOLS)
        self.pool = r.sample(range(20, 30000), 1500)
        self.calls, self.fns = [], 0
        self.budget = r.choice([30, 60, 100])
        # what each name denotes as an identifier with external linkage
        self.G = {n: r.choice(["hv", "hf", "ov", "of", "", ""]) for n in NAMES}
        self.gid = {}
        for n in NAMES:
            i = self.id()
            self.gid[n] = i
            self.D[i] = dict(kind="func" if self.G[n][1:] == "f" else "var", style="int", val=i)
        self.defined = set()
        self.text = self.file()

    def id(self):
        return self.pool.pop()

    def num(self):
        self.k += 1
        return self.k

    def e(self, e, n="", i=0, k=""):
        self.ev.append({"e": e, "n": n, "i": i, "k": k})
        return len(self.ev) - 1

    def name(self):
        return self.r.choice(self.names)

    # -- answers
    def val(self, d, res):
        v = self.D[d]["val"]
        return v(res) if callable(v) else v

    def soft(self, n=None):
        """an integer constant expression, 1 if the name denotes what it should"""
        n = n or self.name()
        if self.r.random() < .3:
            return self.tag_use(n)
        i = self.e("use", n)
        x = self.r.random()

        def f(res):
            d = res[i]
            if d <= 0:
                return "1"
            D = self.D[d]
            v = self.val(d, res)
            if D["kind"] == "var":
                return f"(sizeof {n} == {INTS[D['style']] if D['style'] in INTS else v})" if x < .7 else f"(sizeof({n}) + 1 == {(INTS[D['style']] if D['style'] in INTS else v) + 1})"
            if D["kind"] == "type":
                return f"(sizeof({n}) == {v})" if x < .5 else f"(sizeof(*({n} *)0) == {v})" if x < .8 else f"(sizeof({n} *) == 8 && sizeof({n}[2]) == {2 * v})"
            if D["kind"] == "enum":
                return f"({n} == {v})"
            return f"(sizeof({n}()) == 4 && _Generic(&{n}, int (*)(void): 1, default: 0))"
        return f

    def tag_use(self, n):
        i = self.e("tuse", n)
        x = self.r.random()

        def f(res):
            d = res[i]
            if d <= 0:
                return "1"
            D, v = self.D[d], self.val(d, res)
            t = f"{D['kind']} {n}"
            return f"(sizeof({t}) == {v})" if x < .6 else f"(sizeof(({t} *)0)[0] == {v})" if x < .8 else f"(sizeof({t} *) == 8 && sizeof({t}[3]) == {3 * v})"
        return f

    def hard(self, n=None):
        n = n or self.name()
        x = self.r.random()
        if x < .25:
            return self.tag_use(n)
        i = self.e("use", n)

        def f(res):
            d = res[i]
            if d <= 0:
                return "1"
            D, v = self.D[d], self.val(d, res)
            if D["kind"] == "var":
                if D["style"] in INTS:
                    return f"({n} == {v})" if x < .5 else f"(({n}) - 1 == {v - 1})" if x < .7 else f"(({n}) + (1) == {v + 1} && ({n}) * 1 == {v})" if x < .85 else f"(*&({n}) == {v} && sizeof ({n}) == {INTS[D['style']]})"
                return f"(sizeof {n} == {v})"
            if D["kind"] == "type":
                return f"(sizeof({n}) == {v})" if x < .5 else f"(sizeof(({n}){{0}}) == {v})" if x < .75 else f"(sizeof *({n} *)(0) == {v})"
            if D["kind"] == "enum":
                return f"({n} == {v})" if x < .6 else f"(({n}) - 1 == {v - 1})"
            return f"({n}() == {v})" if x < .6 else f"(({n})() == {v})"
        return f

    def use_stmt(self):
        """a statement checking one name, in a form that depends on its being a type or not"""
        n, k, x = self.name(), self.num(), self.r.random()
        if x < .6:
            return [f"ck({k}, ", self.hard(n), "); "]
        i = self.e("use", n)

        def f(res):
            d = res[i]
            if d <= 0:
                return ""
            D, v = self.D[d], self.val(d, res)
            if D["kind"] == "type":
                if x < .7:
                    return f"{{ {n} *q = 0; ck({k}, sizeof *q == {v}); }} "
                if x < .8:
                    return f"{{ {n} (q); ck({k}, sizeof q == {v}); }} "
                if x < .85:
                    return f"{{ struct {{ int {n}; {n} q; }} s; ck({k}, sizeof s.q == {v} && sizeof s.{n} == 4); }} "
                if x < .9:
                    return f"{{ {n} const *q, (*r)[2]; ck({k}, sizeof *q == {v} && sizeof *r == {2 * v}); }} "
                if x < .95:
                    return f"{{ {n} {n}; ck({k}, sizeof {n} == {v}); }} "
                return f"{{ const {n} {n}[2] = {{0}}; ck({k}, sizeof {n} == {2 * v}); }} "
            if D["kind"] == "var" and D["style"] in INTS:
                if x < .75:
                    return f"{{ int q = 1; {n} * q; ck({k}, {n} * q == {v}); }} "
                if x < .85:
                    return f"{{ int q = 2; ({n}); ({n}) * q; ck({k}, ({n}) * q == {2 * v}); }} "
                return f"{{ struct {{ int {n}; }} s = {{ .{n} = {n} }}; ck({k}, s.{n} == {v}); }} "
            if D["kind"] == "enum":
                return f"switch ({v}) {{ case {n}: ck({k}, 1); break; default: ck({k}, 0); }} "
            if D["kind"] == "func":
                return f"{{ int (*q)(void) = {n}; ck({k}, q() == {v}); }} "
            return f"ck({k}, sizeof {n} == {v}); "
        return [f]

    # -- declarations: lists of pieces ending in ; (or nothing)
    def var(self, n, static=False, init=True, filescope=False):
        """one declarator with its specifiers"""
        r = self.r
        i = self.id()
        x = r.random()
        st = "static " if static else ""
        if x < .55:
            t = r.choice(list(INTS))
            self.D[i] = dict(kind="var", style=t, val=i)
            o = self.e("ord", n, i, "var")
            u = self.soft()
            return [lambda res: (f"{st}{t} {n} = " if res[o] > 0 else f"{'static ' if filescope else ''}int u{i} = "), u, f" ? {i} : 0; "]
        if x < .8:
            u = self.soft()
            self.D[i] = dict(kind="var", style="arr", val=i)
            o = self.e("ord", n, i, "var")
            return [lambda res: f"{st}char {n if res[o] > 0 else f'u{i}'}[", u, f" ? {i} : 1]; "]
        m = n if r.random() < .6 else self.name()
        w = self.e("use", m)

        def tid(res):
            return res[w] if res[w] > 0 and self.D[res[w]]["kind"] == "type" else 0
        self.D[i] = dict(kind="var", style="self", val=lambda res: self.val(tid(res), res) if tid(res) else i)
        o = self.e("ord", n, i, "var")
        u = self.soft()
        k = self.num()
        return [lambda res: (f"{st}{m} {n}" if tid(res) else f"{st}char {n}[{i}]") if res[o] > 0 else f"{st}char u{i}", ";" if filescope else [f"; ck({k}, ", u, ");"], " "]

    def vars(self, n):
        """several declarators"""
        r = self.r
        ps, t = [], r.choice(list(INTS))
        ns = [n] + [self.name() for _ in range(r.choice([1, 2]))]
        for j, m in enumerate(ns):
            i = self.id()
            if r.random() < .3:
                u = self.soft()
                self.D[i] = dict(kind="var", style="arr", val=lambda res, i=i: i * INTS[t])
                o = self.e("ord", m, i, "var")
                ps += [lambda res, o=o, m=m, i=i: f"{m if res[o] > 0 else f'u{i}'}[", u, f" ? {i} : 1]"]
            else:
                self.D[i] = dict(kind="var", style=t, val=i)
                o = self.e("ord", m, i, "var")
                u = self.soft()
                ps += [lambda res, o=o, m=m, i=i: f"{m if res[o] > 0 else f'u{i}'} = ", u, f" ? {i} : 0"]
            ps.append(", " if j + 1 < len(ns) else "; ")
        return [f"{t} "] + ps

    def typedef(self, n):
        i = self.id()
        x = self.r.random()
        if x < .25:
            t, _ = self.tagdef(self.name(), kinds=("struct", "union"))
            j = [p for p in t if isinstance(p, tuple)][0][1]
            self.D[i] = dict(kind="type", style="st", val=lambda res: self.val(res[j], res) if res[j] > 0 else 1)
            o = self.e("ord", n, i, "type")
            return ["typedef "] + t + [lambda res: f" {n if res[o] > 0 else f'u{i}'}; "]
        u = self.soft()
        self.D[i] = dict(kind="type", style="arr" if x < .7 else "st", val=i)
        o = self.e("ord", n, i, "type")
        if x < .7:
            return [lambda res: f"typedef char {n if res[o] > 0 else f'u{i}'}[", u, f" ? {i} : 1]; "]
        return ["typedef struct { char x[", u, f" ? {i} : 1]; }} ", lambda res: f"{n if res[o] > 0 else f'u{i}'}; "]

    def enum(self, tag=None):
        """enum specifier"""
        r = self.r
        i = self.id()
        base, size = r.choice([("", 4), ("", 4), (" : char", 1), (" : short", 2), (" : long", 8)]) if tag else ("", 4)
        lim = {1: 120, 2: 30000}.get(size, 1 << 30)
        b = self.e("tbeg", tag, i, "enum") if tag else None
        self.D[i] = dict(kind="enum", val=size)
        ps = [("t", b) if tag else "", lambda res: (f"enum {tag if tag and res[b] > 0 else ''}{base} {{ ")]
        for _ in range(r.choice([1, 1, 2, 3])):
            n, v = self.name(), self.id() % lim
            x = r.random()
            u = self.soft(n if x < .4 else None)
            d = self.id()
            self.D[d] = dict(kind="enum", val=v)
            # tags and enumerators have ids of their own
            o = self.e("ord", n, d, "enumerator")
            self.D[d]["kind"] = "enum"
            ps += [lambda res, o=o, n=n, d=d: f"{n if res[o] > 0 else f'u{d}'} = ", u, f" ? {v} : 0, "]
        ps.append(f"u{i}_ }}")
        if tag:
            self.e("tend", k="enum")
        return ps, b

    def tagdef(self, n, kinds=("struct", "union", "enum"), depth=0):
        """specifier defining tag n; the first piece is ("t", event)"""
        r = self.r
        kind = r.choice(kinds)
        if kind == "enum":
            ps, b = self.enum(n)
            return self.whole(ps, b, "enum"), b
        i = self.id()
        b = self.e("tbeg", n, i, kind)
        parts, extra = [], []
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            x = r.random()
            m = f"m{self.num()}"
            if x < .25:
                parts.append([f"char {r.choice(self.names)}_{self.num()}; "])
                extra.append(lambda res: 1)
            elif x < .45:
                u = self.soft()
                parts.append([f"char {m}[", u, " ? 1 : 9]; "])
                extra.append(lambda res: 1)
            elif x < .6:
                q = self.name()
                kk = r.choice(["struct", "union"])
                f = self.e("men", q, self.id(), kk)
                self.D[self.ev[-1]["i"]] = dict(kind=kk, val=self.ev[-1]["i"])
                parts.append([lambda res, f=f, q=q, kk=kk, m=m: f"char {m}[sizeof({kk} {q} *) == 8 ? 1 : 9]; " if res[f] > 0 else f"char {m}; "])
                extra.append(lambda res: 1)
            elif x < .8 and depth < 2:
                t, tb = self.tagdef(self.name(), depth=depth + 1)
                parts.append([f"char {m}[sizeof("] + t + [") ? 1 : 9]; "])
                extra.append(lambda res: 1)
            elif x < .9:
                q = self.name()
                w = self.e("use", q)

                def td(res, w=w):
                    return res[w] if res[w] > 0 and self.D[res[w]]["kind"] == "type" else 0
                nm = q + r.choice(["", str(self.num())])
                if any(nm == getattr(p, "nm", None) for p in parts):
                    continue
                parts.append([lambda res, td=td, q=q, nm=nm, m=m: f"{q} {m}{nm}; " if td(res) else f"char {m}; "])
                extra.append(lambda res, td=td: self.val(td(res), res) if td(res) else 1)
            else:
                t, _ = self.enum()
                parts.append([f"char {m}[sizeof("] + t + [") == 4 ? 1 : 9]; "])
                extra.append(lambda res: 1)
        self.e("tend", k=kind)
        self.D[i] = dict(kind=kind, val=(lambda res: i + sum(x(res) for x in extra)) if kind == "struct" else (lambda res: max([i] + [x(res) for x in extra])))
        first, last = (parts, []) if r.random() < .5 else ([], parts)
        ps = [f"{kind} {n} {{ "] + [p for q in first for p in q] + [f"char x[{i}]; "] + [p for q in last for p in q] + ["}"]
        # completing a tag declared before: the earlier declaration has its size from here on
        self.completes = getattr(self, "completes", [])
        self.completes.append((b, i))
        return self.whole(ps, b, kind), b

    def whole(self, ps, b, kind):
        """the definition, or nothing of it if its tag cannot be defined here"""
        return [("t", b), lambda res: "".join(self.flat(ps, res)) if res[b] > 0 else "char"]

    def flat(self, ps, res):
        out = []
        for p in ps:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, list):
                out += self.flat(p, res)
            elif callable(p):
                out.append(p(res))
        return out

    def fwd(self, n):
        i, k = self.id(), self.r.choice(["struct", "union"])
        self.D[i] = dict(kind=k, val=i)
        f = self.e("fwd", n, i, k)
        return [lambda res: f"{k} {n}; " if res[f] > 0 else ""]

    def fixed(self, n):
        """an enumeration with a fixed underlying type is complete without its enumerators"""
        i = self.id()
        t, size = self.r.choice([("char", 1), ("short", 2), ("long", 8)])
        self.D[i] = dict(kind="enum", val=size)
        b = self.e("tbeg", n, i, "enum")
        self.e("tend", k="enum")
        return [lambda res: f"enum {n} : {t}; " if res[b] > 0 else ""]

    def forward(self, n, ptrs, filescope):
        """declared, pointed to, then completed: the pointer is to the type of this scope"""
        k = self.r.choice(["struct", "union"])
        i = self.id()
        self.D[i] = dict(kind=k, val=i)
        f = self.e("fwd", n, i, k)
        j = self.id()
        self.D[j] = dict(kind=k, val=j)
        g = self.e("men", n, j, k)
        v = f"p{j}"
        ptrs.append((v, g))
        ps = [lambda res: f"{k} {n}; " if res[f] > 0 else "", lambda res: f"{k} {n} *{v}; " if res[g] > 0 else ""]
        t, b = self.tagdef(n, kinds=(k,))
        ps += [lambda res: "".join(self.flat(t, res)) + "; " if res[b] > 0 else ""]
        return ps if filescope else ps + self.pointee(v, g)

    def ptr(self, n, ptrs):
        i, k = self.id(), self.r.choice(["struct", "union"])
        self.D[i] = dict(kind=k, val=i)
        f = self.e("men", n, i, k)
        p = f"p{i}"
        ptrs.append((p, f))
        return [lambda res: f"{k} {n} *{p}; " if res[f] > 0 else ""]

    def pointee(self, p, f):
        """sizeof *p, if its type is complete by now: asked by the declaration's id, known after the run"""
        k = self.num()
        at = len(self.ev)
        self.e("ptr", i=f)
        return [lambda res: f"ck({k}, sizeof *{p} == {self.val(res[f], res)}); " if res[f] > 0 and res[at] > 0 else ""]

    def proto(self, name=None):
        """a prototype's parameters are declarations of their own scope"""
        self.e("open")
        ps = []
        for j in range(self.r.choice([1, 2, 3])):
            n, i = self.name(), self.id()
            x = self.r.random()
            if x < .4:
                self.D[i] = dict(kind="var", style="int", val=i)
                o = self.e("ord", n, i, "var")
                ps.append([lambda res, o=o, n=n: f"int {n if res[o] > 0 else ''}"])
            elif x < .7:
                u = self.soft()
                self.D[i] = dict(kind="var", style="ptr", val=8)
                o = self.e("ord", n, i, "var")
                ps.append([lambda res, o=o, n=n: f"char (*{n if res[o] > 0 else ''})[", u, " ? 3 : 4]"])
            else:
                t, _ = self.tagdef(n, kinds=("struct", "union"))
                u = self.soft()
                ps.append(["char (*)[sizeof("] + t + [") && ", u, " ? 3 : 4]"])
        self.e("close")
        out = [f"int {name or f'g{self.num()}'}("]
        for j, p in enumerate(ps):
            out += (", " if j else "") and [", "]
            out += p
        return out + ["); "]

    def ext(self, n, block=True):
        g = self.G[n]
        if not g:
            return []
        kind = "func" if g[1] == "f" else "var"
        o = self.e("ext", n, self.gid[n], kind)
        v = self.gid[n]
        x = self.r.random()
        define = not block and g[0] == "h" and n not in self.defined and x < .6
        if define:
            self.defined.add(n)

        def f(res):
            if res[o] <= 0:
                return self.definition(n) if define and False else ""
            if kind == "func":
                return f"int {n}(void){{ return {v}; }} " if define else f"{'extern ' if x < .5 else ''}int {n}(void); "
            return f"int {n} = {v}; " if define else f"extern int {n}; "
        if define:
            self.defs = getattr(self, "defs", {})
            self.defs[n] = o
        return [f]

    # -- expressions that declare
    def declares(self):
        r = self.r
        x = r.random()
        n = self.name()
        if x < .25:
            t, _ = self.enum(n if r.random() < .5 else None)
            return ["(sizeof("] + t + [") >= 1)"]
        t, b = self.tagdef(n)
        body = r.choice([["(sizeof("] + t + [") >= 1)"], ["((("] + t + [" *)0) == 0)"], ["(_Alignof("] + t + [") >= 1)"], ["(sizeof(__typeof__("] + t + [")) >= 1)"], ["(sizeof(("] + t + ["){0}) >= 1)"], ["(_Generic(("] + t + [" *)0, default: 1))"], ["(sizeof(int (*)("] + t + [" *)) == 8)"]])
        if "int (*)(" in str(body[0]):
            # a prototype scope of its own: undo, the events are already recorded without it
            body = ["(sizeof("] + t + [" *) == 8)"]
        return body

    def expr(self):
        """a condition that is 1"""
        r = self.r
        x = r.random()
        if x < .4:
            return self.hard()
        if x < .6:
            return self.declares()
        if x < .7:
            d = self.declares()
            return ["("] + d + [" && ", self.hard(), ")"]
        if x < .8:
            d = self.declares()
            return ["idf("] + d + [", ", self.hard(), ")"]
        if x < .85:
            d = self.declares()
            return ["idf(idf(1, "] + d + ["), ", self.hard(), ")"]
        if x < .92:
            d = self.declares()
            return ["("] + d + [" ?: 0)"]
        d = self.declares()
        h = self.hard()
        return ["("] + d + [" ? ", h, " : "] + self.declares() + [")"]

    # -- statements
    def decl(self, ptrs, filescope=False):
        r = self.r
        n, x = self.name(), r.random()
        if filescope and self.G[n]:
            if self.G[n][0] == "h" and x < .6:
                return self.ext(n, False)
            if self.G[n][0] == "h":
                x = .65
            elif x < .3:
                x = .35
        if x < .3:
            return self.var(n, static=filescope or r.random() < .2, filescope=filescope) if filescope or r.random() < .7 else self.vars(n)
        if x < .48:
            return self.typedef(n)
        if x < .6:
            t, _ = self.enum(n if r.random() < .5 else None)
            return t + ["; "]
        if x < .74:
            t, b = self.tagdef(n)
            v = f"v{self.num()}" if r.random() < .5 else ""
            return [lambda res: "".join(self.flat(t, res)) + (f" {v}; " if v else "; ") if res[b] > 0 else ""]
        if x < .82:
            return self.fwd(n) if r.random() < .4 else self.fixed(n) if r.random() < .3 else self.forward(n, ptrs, filescope)
        if x < .9:
            return self.ptr(n, ptrs)
        if x < .95 or filescope:
            return self.proto()
        return self.ext(n)

    def bare(self, depth, ptrs, lab):
        """a secondary block; braces or not"""
        self.e("open")
        if self.r.random() < .5:
            ps = ["{ "] + self.items(depth + 1, list(ptrs), lab) + ["} "]
        else:
            ps = [f"ck({self.num()}, "] + [self.expr()] + ["); "]
        self.e("close")
        return ps

    def stmt(self, depth, ptrs, lab):
        r = self.r
        x = r.random()
        k = self.num()
        if x < .3 or depth > 4 or len(self.ev) > self.budget * 2:
            return self.use_stmt()
        if x < .42:
            return [f"ck({k}, ", self.expr(), "); "]
        if x < .47 and ptrs:
            return self.pointee(*r.choice(ptrs))
        if x < .57:
            self.e("open")
            ps = ["{ "] + self.items(depth + 1, list(ptrs), lab) + ["} "]
            self.e("close")
            return ps
        if x < .67:
            self.e("open")
            h = self.head(k)
            ps = ["if ("] + h + [") "] + self.bare(depth, ptrs, lab)
            if r.random() < .5:
                ps += ["else "] + self.bare(depth, ptrs, lab)
            self.e("close")
            return ps
        if x < .77:
            self.e("open")
            n, i = self.name(), self.id()
            y = r.random()
            if y < .6:
                o = self.e("ord", n, i, "var")
                self.D[i] = dict(kind="var", style="int", val=i)
                u = self.soft()
                h = [f"int {n} = ", u, f" ? {i} : 0, w{k} = 1; "]
            else:
                h = [f"int w{k} = ", self.soft(), "; "]
            c = [f"w{k} && ", self.expr()] if r.random() < .3 else [f"w{k}"]
            inc = [f"w{k} = !", self.hard()] if r.random() < .3 else [f"w{k} = 0"]
            ps = ["for ("] + h + c + ["; "] + inc + [") "] + self.bare(depth, ptrs, lab)
            self.e("close")
            return ps
        if x < .81:
            self.e("open")
            ps = ["while ("] + [self.expr()] + [f" && one({k})) "] + self.bare(depth, ptrs, lab)
            self.e("close")
            return ps
        if x < .85:
            self.e("open")
            ps = ["do "] + self.bare(depth, ptrs, lab)
            ps += ["while (!"] + [self.expr()] + ["); "]
            self.e("close")
            return ps
        if x < .9:
            self.e("open")
            h = self.head(k, True)
            ps = ["switch ("] + h + [") "]
            self.e("open")
            ps += ["{ default: ; "] + self.items(depth + 1, list(ptrs), lab) + ["} "]
            self.e("close")
            self.e("close")
            return ps
        if x < .96:
            self.e("open")
            ps = [f"ck({k}, ({{ "] + self.items(depth + 1, list(ptrs), lab) + [self.hard(), "; })); "]
            self.e("close")
            return ps
        free = [n for n in self.names if n not in lab]
        if free:
            n = r.choice(free)
            lab.append(n)
            return [f"goto {n}; ck({k}, 0); {n}: ; "]
        return self.use_stmt()

    def head(self, k, sw=False):
        r = self.r
        if not self.gcc and r.random() < .4:
            n, i = self.name(), self.id()
            o = self.e("ord", n, i, "var")
            self.D[i] = dict(kind="var", style="int", val=i)
            u = self.soft()
            return [f"int {n} = ", u, f" ? {i} : 0"] + ([] if r.random() < .5 else ["; ", self.expr()])
        return [self.expr()]

    def items(self, depth, ptrs, lab):
        ps = []
        for _ in range(self.r.choice([1, 2, 3, 4, 5]) if depth < 3 else 2):
            if self.r.random() < .42:
                ps += self.decl(ptrs)
            else:
                ps += self.stmt(depth, ptrs, lab)
        return ps

    def function(self):
        r = self.r
        self.fns += 1
        f = f"f{self.fns}"
        self.e("open")
        pa, args = [], []
        for j in range(r.choice([0, 1, 2, 3])):
            n, i = self.name(), self.id()
            if r.random() < .6:
                t = r.choice(list(INTS))
                self.D[i] = dict(kind="var", style=t, val=i)
                o = self.e("ord", n, i, "var")
                pa.append([lambda res, o=o, n=n, i=i, t=t: f"{t} {n if res[o] > 0 else f'u{i}'}"])
                args.append(str(i))
            else:
                u = self.soft()
                o = self.e("ord", n, i, "var")
                self.D[i] = dict(kind="var", style="ptr", val=8)
                pa.append([lambda res, o=o, n=n, i=i: f"char (*{n if res[o] > 0 else f'u{i}'})[", u, " ? 3 : 4]"])
                args.append("0")
        ps = [f"static void {f}("]
        for j, p in enumerate(pa):
            ps += [", "] * (j > 0) + p
        ps += [") { " if pa else "void) { "] + self.items(0, [], []) + self.use_stmt() + ["}\n"]
        self.e("close")
        self.calls.append(f"{f}({', '.join(args)});")
        return ps

    def file(self):
        r = self.r
        ps = []
        ptrs = []
        while len(self.ev) < self.budget and self.fns < 6:
            x = r.random()
            if x < .55:
                ps += self.decl(ptrs, True) + ["\n"]
            elif x < .65:
                ps += ["_Static_assert(", self.soft(), ", \"\");\n"]
            else:
                ps += self.function()
        ps += self.function()
        return ps


HEAD = r"""int printf(const char *, ...);
static int nbad, nck; static void ck(int k, int ok) { nck++; if (!ok) { nbad++; printf("check %d failed\n", k); } }
static int idf(int x, int y) { return x && y; } static char seen[2000]; static int one(int k) { return !seen[k]++; }
"""


def resolve(tu):
    """pointee questions are asked by the event that declared the pointer"""
    return tu


def main(c):
    cc = os.environ.get("VF_CC") or c.build()
    gcc = "gcc" in cc
    N = 2500 if c.quick else 40000
    r = c.rng
    tus = [TU(r, gcc) for _ in range(N)]
    res = [None] * N
    for b in chunks(list(range(N)), 8000):
        for x in c.tlc("Scopes", [{"ev": tus[i].ev, "res": [n for n in tus[i].names if tus[i].G[n][:1] == "h"]} for i in b], deadlock=True, invariants=["Balanced", "OpenIncomplete", "Private"]):
            res[b[x["cid"] - 1]] = x["out"]

    def source(i):
        t, o = tus[i], res[i]
        # a tag completed later than declared gets the size of the completing definition
        for b, d in getattr(t, "completes", []):
            if o[b] > 0 and o[b] != d:
                t.D[o[b]]["val"] = t.D[d]["val"]
        s = HEAD + "".join(t.flat(t.text, o)).replace("; ", ";\n").replace("{ ", "{\n")
        defs = getattr(t, "defs", {})
        for n in t.names:
            g, v = t.G[n], t.gid[n]
            if not g:
                continue
            if g[0] == "h" and not (n in defs and o[defs[n]] > 0):
                # the file scope may have nothing else of that name
                s += f"int {n}(void) {{ return {v}; }}\n" if g[1] == "f" else f"int {n} = {v};\n"
            if g[0] == "o":
                s += f'__asm__(".globl {n}\\n{".text" if g[1] == "f" else ".data"}\\n{n}: {f"movl ${v}, %eax; ret" if g[1] == "f" else f".long {v}"}\\n.text\\n");\n'
        return s + "int main(void) { " + " ".join(t.calls) + ' printf("%d %s\\n", nck, nbad ? "bad" : "ok"); return !!nbad; }\n'

    def one(i):
        src = source(i)
        p = c.path(f"s{i}")
        opt = "-O0" if i % 2 else "-O1"
        for _ in range(2):
            rc, o, e = sh([cc, "-std=" + ("gnu2x" if gcc else "c2y"), opt, "-w", "-xc", "-", "-o", p], inp=src.encode(), timeout=60) if gcc else sh([cc, "-std=c23", opt, "-xc", "-", "-o", p], inp=src.encode(), timeout=60)
            out = b""
            if rc == 0:
                rc, out, _ = sh([p], timeout=20)
            if os.path.exists(p):
                os.remove(p)
            if rc == 0 and out.endswith(b" ok\n"):
                return None, out
        return (rc, out, e, src, opt), out
    total = 0
    for i, (bad, out) in enumerate(c.pmap(one, list(range(N)))):
        if bad:
            c.violation("scope:" + bad[3][len(HEAD):], {"unit": bad[3][len(HEAD):], "rc": bad[0], "opt": bad[4], "output": bad[1].decode(errors="replace")[:400], "stderr": bad[2].decode(errors="replace")[:400]}, {"case.c": bad[3]})
        else:
            total += int(out.split()[0])
    c.traces += N
    c.extra.update({"units": N, "lookups": sum(1 for t in tus for e in t.ev if e["e"] in ("use", "tuse", "ptr")), "run_time_checks": total})
    c.samples += [{"unit": source(i)[len(HEAD):], "answers": res[i]} for i in range(2)]


if __name__ == "__main__":
    run_check("P15", main)
