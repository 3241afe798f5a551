"""Exported signatures of the compiled engine, read from rust/src/*.rs (lexical: attributes + fn headers + export macros)."""
import os
import re

from .program import AnalysisError


class RustFn:
    def __init__(self, name, module, params, line, path):
        self.name, self.module, self.params, self.line, self.path = name, module, params, line, path
        # params: list of (name, default_text or None, type_text)

    def __repr__(self):
        return f"{self.module}.{self.name}({', '.join(p[0] for p in self.params)})"


def strip_comments(s):
    s = re.sub(r"//[^\n]*", lambda m: " " * len(m.group()), s)
    return re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group()), s, flags=re.S)


def matching(s, i, op, cl):
    d = 0
    for j in range(i, len(s)):
        if s[j] in op:
            d += 1
        elif s[j] in cl:
            d -= 1
            if d == 0:
                return j
    return -1


def split_top(s):
    out, d, cur = [], 0, ""
    prev = ""
    for ch in s:
        if ch in "([{<":
            d += 1
        elif ch in ")]}" or (ch == ">" and prev != "-"):
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
        prev = ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out if x.strip()]


def parse_module(text, modname, path):
    s = strip_comments(text)
    fns = {}
    # macro bodies must not be parsed as functions
    macros = {}
    for m in re.finditer(r"macro_rules!\s*(\w+)\s*\{", s):
        e = matching(s, m.end() - 1, "{", "}")
        macros[m.group(1)] = s[m.start():e + 1]
    body = s
    for t in macros.values():
        body = body.replace(t, re.sub(r"[^\n]", " ", t))
    registered = set(re.findall(r"wrap_pyfunction!\s*\(\s*(\w+)", body))
    for m in re.finditer(r"#\[pyfunction[^\]]*\]", body):
        i = m.end()
        attrs = ""
        while True:
            k = re.match(r"\s*#\[", body[i:])
            if not k:
                break
            e = matching(body, i + k.end() - 1, "[", "]")
            attrs += body[i:e + 1]
            i = e + 1
        k = re.match(r"\s*(?:pub(?:\([^)]*\))?\s+)?fn\s+(\w+)", body[i:])
        if not k:
            continue
        rname = k.group(1)
        j = i + k.end()
        if body[j] == "<":
            j = matching(body, j, "<", ">") + 1
        while body[j] != "(":
            j += 1
        e = matching(body, j, "(", ")")
        types = {}
        order = []
        for p in split_top(body[j + 1:e]):
            n, _, t = p.partition(":")
            n = n.strip()
            if n.startswith("mut "):
                n = n[4:]
            n = n.lstrip("_") if n.startswith("_") and n != "_" else n
            t = " ".join(t.split())
            if t.startswith("Python<"):
                continue
            order.append(n)
            types[n] = t
        nm = re.search(r'name\s*=\s*"(\w+)"', attrs)
        name = nm.group(1) if nm else rname
        sg = re.search(r"signature\s*=\s*\(", attrs)
        params = []
        if sg:
            b = sg.end() - 1
            e2 = matching(attrs, b, "(", ")")
            for p in split_top(attrs[b + 1:e2]):
                if p in ("*", "/"):
                    continue
                n, eq, d = p.partition("=")
                n = n.strip()
                params.append((n, d.strip() if eq else None, types.get(n.lstrip("_"), "")))
        else:
            params = [(n, "None" if types[n].startswith("Option<") and False else None, types[n]) for n in order]
        line = body[:i].count("\n") + 2
        fns[name] = RustFn(name, modname, params, line, path)
        fns[name].registered = rname in registered
    for mac, mtext in macros.items():
        if "#[pyfunction]" not in mtext:
            continue
        hd = re.search(r"pub fn \$name.*?\(", mtext, flags=re.S)
        if not hd:
            continue
        e = matching(mtext, hd.end() - 1, "(", ")")
        fixed = []
        for p in split_top(mtext[hd.end():e].split("$(")[0]):
            n, _, t = p.partition(":")
            if t.strip().startswith("Python<"):
                continue
            fixed.append((n.strip(), None, " ".join(t.split())))
        for m in re.finditer(r"\b" + mac + r"!\s*\(", body):
            e = matching(body, m.end() - 1, "(", ")")
            parts = split_top(body[m.end():e])
            name = parts[0]
            extra = []
            for p in parts[2:]:
                n, _, t = p.partition(":")
                extra.append((n.strip(), None, t.strip()))
            fns[name] = RustFn(name, modname, fixed + extra, body[:m.start()].count("\n") + 1, path)
            fns[name].registered = name in registered
    return fns


def load(root="/repo"):
    out = {}
    base = os.path.join(root, "rust", "src")
    if not os.path.isdir(base):
        raise AnalysisError(f"{base} not found")
    for f in sorted(os.listdir(base)):
        if f.endswith(".rs") and f != "lib.rs":
            with open(os.path.join(base, f), encoding="utf-8") as fh:
                out[f[:-3]] = parse_module(fh.read(), f[:-3], f"rust/src/{f}")
    return out
