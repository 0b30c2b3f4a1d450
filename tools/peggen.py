#!/usr/bin/env python3
"""Turn codon's .peg grammar (with embedded C++ actions) into the rule file that
codon/util/peg2cpp.cpp would generate, for the peglib stand-in in shim/peglib.h.

usage: peggen.py GRAMMAR OUT.cpp NAME
"""
import sys, re


class P:
    def __init__(self, text):
        self.t = text
        self.i = 0
        self.rules = []          # (name, ignore, params, expr, code)
        self.pred = {}
        self.nomemo = set()
        self.preamble = ""

    def err(self, m):
        line = self.t.count("\n", 0, self.i) + 1
        raise SystemExit(f"peg:{line}: {m}: {self.t[self.i:self.i+40]!r}")

    def ws(self):
        while self.i < len(self.t):
            c = self.t[self.i]
            if c in " \t\r\n":
                self.i += 1
            elif c == "#":
                while self.i < len(self.t) and self.t[self.i] != "\n":
                    self.i += 1
            else:
                break

    def peek(self, s):
        return self.t.startswith(s, self.i)

    def ident(self):
        m = re.compile(r"[A-Za-z_][A-Za-z_0-9]*").match(self.t, self.i)
        if not m:
            return None
        return m.group(0)

    def code(self):
        """balanced {...} block; returns the inside"""
        assert self.t[self.i] == "{"
        st = self.i
        d = 0
        t = self.t
        i = self.i
        while i < len(t):
            c = t[i]
            if c == '"':
                i += 1
                while t[i] != '"':
                    i += 2 if t[i] == "\\" else 1
            elif c == "'" and re.match(r"'(\\.|[^'\\])'", t[i:i + 4]):
                i += len(re.match(r"'(\\.|[^'\\])'", t[i:i + 4]).group(0)) - 1
            elif t.startswith("//", i):
                while t[i] != "\n":
                    i += 1
            elif c == "{":
                d += 1
            elif c == "}":
                d -= 1
                if d == 0:
                    self.i = i + 1
                    return t[st + 1:i]
            i += 1
        self.err("unbalanced code")

    def parse(self):
        while True:
            self.ws()
            if self.i >= len(self.t):
                break
            ign = False
            if self.peek("~"):
                ign = True
                self.i += 1
            n = self.ident()
            if not n:
                self.err("rule name expected")
            self.i += len(n)
            if n == "PREAMBLE":
                self.ws()
                self.preamble = self.code()
                continue
            if n.endswith("__PREDICATE"):
                self.ws()
                self.pred[n[:-len("__PREDICATE")]] = self.code()
                continue
            if n.endswith("__NOPACKRAT"):
                n = n[:-len("__NOPACKRAT")]
                self.nomemo.add(n)
            params = []
            if self.peek("("):
                j = self.t.index(")", self.i)
                params = [x.strip() for x in self.t[self.i + 1:j].split(",")]
                self.i = j + 1
            self.ws()
            if not self.peek("<-"):
                self.err("<- expected")
            self.i += 2
            alts = self.choice(top=True)
            self.rules.append((n, ign, params, alts))

    def at_rule_start(self):
        """identifier (params)? <-  or NAME__PREDICATE {"""
        m = re.compile(r"~?[A-Za-z_][A-Za-z_0-9]*(\([^()]*\))?\s*<-").match(self.t, self.i)
        m2 = re.compile(r"[A-Za-z_0-9]+__PREDICATE\s*\{").match(self.t, self.i)
        return bool(m or m2)

    def choice(self, top=False):
        alts = []
        self.ws()
        if self.peek("/"):
            self.i += 1
        while True:
            s = self.sequence(top)
            code = None
            self.ws()
            if top and self.peek("{"):
                code = self.code()
                self.ws()
            alts.append((s, code))
            if self.peek("/"):
                self.i += 1
                continue
            break
        return ("cho", alts)

    def sequence(self, top):
        items = []
        while True:
            self.ws()
            if self.i >= len(self.t) or self.t[self.i] in "/){,>":
                break
            if top and self.at_rule_start():
                break
            items.append(self.prefix(top))
        return ("seq", items)

    def prefix(self, top):
        c = self.t[self.i]
        if c in "&!~":
            self.i += 1
            self.ws()
            return ({"&": "apd", "!": "npd", "~": "ign"}[c], self.prefix(top))
        return self.suffix(top)

    def suffix(self, top):
        p = self.primary(top)
        while self.i < len(self.t) and self.t[self.i] in "*+?":
            p = ({"*": "zom", "+": "oom", "?": "opt"}[self.t[self.i]], p)
            self.i += 1
        return p

    def esc(self, i):
        t = self.t
        if t[i] == "\\":
            c = t[i + 1]
            m = {"n": "\n", "r": "\r", "t": "\t"}
            return m.get(c, c), i + 2
        return t[i], i + 1

    def primary(self, top):
        t = self.t
        c = t[self.i]
        if c == "(":
            self.i += 1
            r = self.choice()
            self.ws()
            if not self.peek(")"):
                self.err(") expected")
            self.i += 1
            return r
        if c == "<":
            self.i += 1
            r = self.choice()
            self.ws()
            if not self.peek(">"):
                self.err("> expected")
            self.i += 1
            return ("tok", r)
        if c in "'\"":
            i = self.i + 1
            s = ""
            while t[i] != c:
                ch, i = self.esc(i)
                s += ch
            self.i = i + 1
            return ("lit", s)
        if c == "[":
            i = self.i + 1
            neg = False
            if t[i] == "^":
                neg = True
                i += 1
            rs = []
            while t[i] != "]":
                a, i = self.esc(i)
                b = a
                if t[i] == "-" and t[i + 1] != "]":
                    b, i = self.esc(i + 1)
                rs.append((ord(a), ord(b)))
            self.i = i + 1
            return ("ncls" if neg else "cls", rs)
        if c == ".":
            self.i += 1
            return ("dot",)
        if c == "^":
            self.i += 1
            return ("cut",)
        n = self.ident()
        if not n:
            self.err("primary expected")
        self.i += len(n)
        if self.peek("("):
            self.i += 1
            args = []
            while True:
                args.append(self.choice())
                self.ws()
                if self.peek(","):
                    self.i += 1
                    continue
                if self.peek(")"):
                    self.i += 1
                    break
                self.err("macro arg")
            return ("mac", n, args)
        return ("ref", n)


def cstr(s):
    r = ""
    for b in s.encode():
        if b in (34, 92):
            r += "\\" + chr(b)
        elif b < 32 or b >= 127:
            r += "\\%03o" % b
        else:
            r += chr(b)
    return '"' + r + '"'


def main():
    g = P(open(sys.argv[1]).read())
    g.parse()
    name = sys.argv[3]
    macros = {n: (params, alts) for n, ign, params, alts in g.rules if params}

    def emit(e, env):
        k = e[0]
        if k == "cho":
            alts = e[1]
            if len(alts) == 1:
                return emit(alts[0][0], env)
            return "cho(" + ", ".join(emit(a[0], env) for a in alts) + ")"
        if k == "seq":
            if len(e[1]) == 1:
                return emit(e[1][0], env)
            return "seq(" + ", ".join(emit(x, env) for x in e[1]) + ")"
        if k in ("apd", "npd", "ign", "tok", "zom", "oom", "opt"):
            return f"{k}({emit(e[1], env)})"
        if k == "lit":
            return f"lit({cstr(e[1])})"
        if k in ("cls", "ncls"):
            return k + "(vc{" + ",".join("{0x%x, 0x%x}" % r for r in e[1]) + "})"
        if k in ("dot", "cut"):
            return k + "()"
        if k == "ref":
            if e[1] in env:
                a, aenv = env[e[1]]
                return emit(a, aenv)
            return f'ref(P, "{e[1]}")'
        if k == "mac":
            params, alts = macros[e[1]]
            return emit(alts, {p: (a, env) for p, a in zip(params, e[2])})
        raise SystemExit("unknown " + k)

    # rules whose result depends on the indentation stack (NOPACKRAT rules, transitively) must not
    # be memoised by position alone
    def refs(e, acc):
        if isinstance(e, tuple) and e and e[0] in ("ref", "mac"):
            acc.add(e[1])
        if isinstance(e, (tuple, list)):
            for x in e:
                refs(x, acc)
        return acc
    deps = {n: refs(alts, set()) for n, ign, params, alts in g.rules}
    nomemo = set(g.nomemo)
    while True:
        more = {n for n in deps if n not in nomemo and deps[n] & nomemo}
        if not more:
            break
        nomemo |= more
    g.nomemo = nomemo
    rules, fns, acts = [], [], []
    LOC = ("  const auto &LI = VS.line_info();\n"
           "  auto LOC = codon::SrcInfo(\n    VS.path, LI.first + CTX.line_offset,\n"
           "    LI.second + CTX.col_offset,\n    VS.sv().size());\n")
    CTX = "  auto &CTX = any_cast<ParseContext &>(DT);\n"
    CCTX = "  const auto &CTX = any_cast<const ParseContext &>(DT);\n"
    for n, ign, params, body in g.rules:
        if params:
            continue
        alts = body[1]
        rules.append(f'  {"~" if ign else ""}P["{n}"] <= {emit(body, {})};')
        rules.append(f'  P["{n}"].name = "{n}";')
        if n in g.nomemo:
            rules.append(f'  P["{n}"].enable_memoize = false;')
        code = ""
        if len(alts) == 1:
            code = alts[0][1] or ""
            has = alts[0][1] is not None
        else:
            has = any(a[1] is not None for a in alts)
            if has:
                for i, a in enumerate(alts):
                    if a[1] is not None:
                        code += f"  if (VS.choice() == {i}) {{{a[1]}}}\n"
                    else:
                        code += f"  if (VS.choice() == {i}) return V0;\n"
        if has and code.strip():
            if "LOC" in code:
                code = LOC + code
            if "CTX" in code:
                code = CTX + code
            fns.append(f"auto fn_{n}(peg::SemanticValues &VS, any &DT) {{\n{code}\n}};")
            acts.append(f'  P["{n}"] = fn_{n};')
        if n in g.pred:
            code = g.pred[n]
            if "LOC" in code:
                code = LOC + code
            if "CTX" in code:
                code = CCTX + code
            fns.append(f"auto pred_{n}(const peg::SemanticValues &VS, const any &DT, "
                       f"std::string &MSG) {{\n{code}\n}};")
            acts.append(f'  P["{n}"].predicate = pred_{n};')
    for n in g.pred:
        if not any(r[0] == n for r in g.rules):
            raise SystemExit(f"predicate for unknown rule {n}")
    with open(sys.argv[2], "w") as f:
        f.write(g.preamble + "\n")
        f.write(f"void init_{name}_rules(peg::Grammar &P) {{\n  using namespace peg;\n"
                "  using peg::seq;\n  using vc = vector<pair<char32_t, char32_t>>;\n"
                + "\n".join(rules) + "\n}\n")
        f.write("\n".join(fns) + "\n")
        f.write(f"void init_{name}_actions(peg::Grammar &P) {{\n" + "\n".join(acts) + "\n}\n")


main()
