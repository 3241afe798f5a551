"""C07: record fields.

Every kernel that creates, fills, updates, copies or summarises records is reduced to its recurrences and effects and
compared with a reference (spec/c07.py): which field receives which quantity, for every path. The declared layouts, the
mapping (code list) of every coded field of every records class, aliases and titles are evaluated from the class
configuration, and every place that reads a field by name is checked to use it as that field.
"""
import ast

from ..consteval import ConstEval, Dct, Opaque
from ..gated import C
from ..kernel import check_spec
from ..program import Assign, ClassInfo, FunctionInfo, bind_call, const, dotted, src, walk_scope
from .common import NB, load_spec
from .scope import kernels, portfolio_kernels, python
from .structure import late_binding

TECHNIQUE = "kernel recurrences and heap effects compared with reference record semantics; static evaluation of record layouts and decoding configuration"
LEVEL_NOTE = ("Holds for all inputs in exact arithmetic for the listed record kernels; readers outside them are checked by field name and code list. "
              "Constructs the evaluator cannot normalise are listed as unresolved, not reported.")
ASSUMPTIONS = ["Record arrays passed in by a caller follow the declared layouts.",
               "A drawdown that is still open when the series ends in NaN is not recorded (upstream behaviour, fixed in the reference)."]
OPAQUE = ("get_trade_stats_nb", "fill_trade_record_nb", "fill_entry_trades_in_position_nb", "fill_position_record_nb", "copy_trade_record_nb", "update_open_pos_stats_nb")
GNB = "vectorbt.generic.nb."
HELPERS = {"is_entry", "is_exit", "direction_of", "close_position_record", "average_exit", "open_record"}

I, F, B = "int64", "float64", "bool"
LAYOUT = {
    "vectorbt.portfolio.enums.order_dt": dict(id=I, col=I, idx=I, size=F, price=F, fees=F, side=I),
    "vectorbt.portfolio.enums.trade_dt": {"id": I, "col": I, "size": F, "entry_idx": I, "entry_price": F, "entry_fees": F, "exit_idx": I,
                                          "exit_price": F, "exit_fees": F, "pnl": F, "return": F, "direction": I, "status": I, "parent_id": I},
    "vectorbt.portfolio.enums.log_dt": dict(
        id=I, group=I, col=I, idx=I, cash=F, position=F, debt=F, free_cash=F, val_price=F, value=F, req_size=F, req_price=F, req_size_type=I,
        req_direction=I, req_fees=F, req_fixed_fees=F, req_slippage=F, req_min_size=F, req_max_size=F, req_size_granularity=F, req_reject_prob=F,
        req_lock_cash=B, req_allow_partial=B, req_raise_reject=B, req_log=B, new_cash=F, new_position=F, new_debt=F, new_free_cash=F,
        new_val_price=F, new_value=F, res_size=F, res_price=F, res_fees=F, res_side=I, res_status=I, res_status_info=I, order_id=I),
    "vectorbt.generic.enums.range_dt": dict(id=I, col=I, start_idx=I, end_idx=I, status=I),
    "vectorbt.generic.enums.drawdown_dt": dict(id=I, col=I, peak_idx=I, start_idx=I, valley_idx=I, end_idx=I, peak_val=F, valley_val=F, end_val=F, status=I),
}
CLASSES = {     # class -> layout, code list per field
    "vectorbt.portfolio.orders.Orders": ("order_dt", dict(side="OrderSide")),
    "vectorbt.portfolio.trades.Trades": ("trade_dt", dict(direction="TradeDirection", status="TradeStatus")),
    "vectorbt.portfolio.trades.EntryTrades": ("trade_dt", dict(direction="TradeDirection", status="TradeStatus")),
    "vectorbt.portfolio.trades.ExitTrades": ("trade_dt", dict(direction="TradeDirection", status="TradeStatus")),
    "vectorbt.portfolio.trades.Positions": ("trade_dt", dict(direction="TradeDirection", status="TradeStatus")),
    "vectorbt.portfolio.logs.Logs": ("log_dt", dict(req_size_type="SizeType", req_direction="Direction", res_side="OrderSide",
                                                    res_status="OrderStatus", res_status_info="OrderStatusInfo")),
    "vectorbt.generic.ranges.Ranges": ("range_dt", dict(status="RangeStatus")),
    "vectorbt.generic.drawdowns.Drawdowns": ("drawdown_dt", dict(status="DrawdownStatus")),
}
ALIASES = {     # documented aliases of record classes that rename the generic index fields
    "Trades": dict(idx="exit_idx", start_idx="entry_idx", end_idx="exit_idx"),
    "EntryTrades": dict(idx="entry_idx", start_idx="entry_idx", end_idx="exit_idx"),
    "ExitTrades": dict(idx="exit_idx", start_idx="entry_idx", end_idx="exit_idx"),
    "Positions": dict(idx="exit_idx", start_idx="entry_idx", end_idx="exit_idx"),
    "Ranges": dict(idx="end_idx"), "Drawdowns": dict(idx="end_idx"),
}


def dtype_fields(ce, a):
    """(name, type) pairs of an np.dtype([...]) assignment."""
    v = a.value
    if isinstance(v, ast.Call) and (dotted(v.func) or "").endswith("dtype") and v.args:
        lst = ce.ev(v.args[0], a.module)
        if isinstance(lst, list) and all(isinstance(x, tuple) and len(x) >= 2 and isinstance(x[0], str) for x in lst):
            return [(x[0], type_name(x[1])) for x in lst]
    return None


def type_name(t):
    s = getattr(t, "name", None) or (t if isinstance(t, str) else None) or getattr(t, "qualname", None) or str(t)
    s = s.split(".")[-1].rstrip("_")
    return {"int": "int64", "float": "float64", "i8": "int64", "f8": "float64", "bool8": "bool"}.get(s, s)


def class_configs(ce, cls):
    """Configurations of the class and its bases, base first (or None if not declarative)."""
    out = []
    for c in reversed(cls.mro()):
        for d in c.node.decorator_list:
            if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] == "override_field_config" and d.args:
                out.append((c, ce.ev(d.args[-1], c.module)))
        if "_field_config" in c.attrs:
            out.append((c, ce.ev(c.attrs["_field_config"], c.module)))
    return out


def norm(s):
    return "".join(ch for ch in s.lower() if ch.isalnum())


def run(ctx):
    prog = ctx.prog
    ctx.rule("reviewed", "records classes read, decode and derive their fields as in the reviewed definitions")
    ctx.rule("kernel", "each record kernel stores exactly the quantities the reference names in exactly those fields, in every case")
    ctx.rule("layout", "the declared layout of each record type has the documented fields and field types")
    ctx.rule("decode", "each coded field of each records class is decoded with the code list it is written with")
    ctx.rule("alias", "each field alias of a records class refers to the field of the record with that meaning")
    ctx.rule("title", "no field is shown under the title of another field")
    ctx.rule("late", "a property attached in a loop reads the field of the iteration that made it")
    ctx.rule("use", "code that reads a field by name binds it to a variable, parameter or code list of the same field")
    late_binding(ctx, "late", lambda m: "records" in m or m.endswith("decorators"))
    spec = load_spec(prog, "c07")
    n = 0
    for name, sf in spec.functions.items():
        if name in HELPERS:
            continue
        fi = prog.get(NB + name) or prog.get(GNB + name)
        fi = prog.deref(fi) if fi is not None else None
        if not isinstance(fi, FunctionInfo):
            ctx.unknown(name, "record kernel not found")
            continue
        n += 1
        check_spec(ctx, "kernel", prog, fi, sf, opaque=OPAQUE, limit=8000)
    ctx.at_least("record kernels", n, 20)
    ce = ConstEval(prog)
    fields = {}
    for q, want in LAYOUT.items():
        a = prog.require(q)
        got = dtype_fields(ce, a) if isinstance(a, Assign) else None
        if got is None:
            ctx.unknown(q, "the layout is not declared as a list of fields")
            fields[q.split(".")[-1]] = set(want)
            continue
        fields[q.split(".")[-1]] = {f for f, _ in got}
        d = dict(got)
        where = f"{a.module.relpath}:{a.value.lineno}"
        for f, t in want.items():
            if f not in d:
                ctx.violate("layout", f"{q}:{f}", where, f"{q.split('.')[-1]} has no field {f!r}")
            elif d[f] != t:
                ctx.violate("layout", f"{q}:{f}", where, f"field {f!r} of {q.split('.')[-1]} is declared {d[f]}, it holds {t} values")
            else:
                ctx.ok("layout")
    cfgs = {}
    for q, (dt, maps) in CLASSES.items():
        cls = prog.require(q)
        ctx.unit(q)
        cfgs[cls.name] = check_config(ctx, prog, ce, cls, dt, maps, fields)
    check_uses(ctx, prog, cfgs, fields)
    ctx.at_least("record field settings checked", ctx.obligations["title"], 50)
    ctx.at_least("coded fields", ctx.obligations["decode"], 14)
    python(ctx, "reviewed", {"records.base": "*", "records.mapped_array": "*", "records.decorators": "*", "portfolio.orders": "*", "portfolio.trades": "*", "portfolio.logs": "*", "portfolio.enums": "*", "generic.enums": "*",
                             "generic.ranges": "*", "generic.drawdowns": "*", "utils.mapping": "*", "utils.enum_": "*", "records.dispatch": "*"}, 150)
    kernels(ctx, "reviewed", lambda n, g, f: g == "records" or "record" in n or "drawdown" in n or "range" in n, 15)


def check_config(ctx, prog, ce, cls, dt, maps, fields):
    merged, dts = {}, None
    where = cls.loc()
    for c, cfg in class_configs(ce, cls):
        if not isinstance(cfg, Dct):
            ctx.unknown(c.loc(), f"field configuration of {c.name} is not declarative")
            return {}
        if cfg.get("dtype") is not None:
            dts = cfg["dtype"]
        st = cfg.get("settings")
        if isinstance(st, Dct):
            for f, d in st.items():
                if not isinstance(d, Dct):
                    ctx.unknown(c.loc(), f"settings of field {f!r} of {c.name} are not declarative")
                    continue
                merged.setdefault(f, {}).update({k: (v, d.nodes.get(k)) for k, v in d.items()})
        elif st is not None:
            ctx.unknown(c.loc(), f"field settings of {c.name} are not declarative")
    at = lambda nd: f"{nd[1].relpath}:{nd[0].lineno}" if nd and nd[0] is not None else where
    for f, en in maps.items():
        v, nd = merged.get(f, {}).get("mapping", (None, None))
        vn = enum_name(prog, v)
        if v is None:
            ctx.violate("decode", f"{cls.name}.{f}", where, f"coded field {f!r} of {cls.name} has no mapping, it would be shown as a number")
        elif vn is None:
            ctx.unknown(at(nd), f"mapping of {cls.name}.{f} is not a code list name")
        elif vn != en:
            ctx.violate("decode", f"{cls.name}.{f}", at(nd), f"field {f!r} of {cls.name} is written with {en} codes but decoded with {vn}")
        else:
            ctx.ok("decode")
    layout = fields[dt]
    for f, st in merged.items():
        real = st.get("name", (f, None))[0]
        if f in layout or f in ALIASES.get(cls.name, {}):
            if f in ALIASES.get(cls.name, {}):
                want = ALIASES[cls.name][f]
                if isinstance(real, str) and real != want:
                    ctx.violate("alias", f"{cls.name}.{f}", at(st.get("name", (0, None))[1]), f"{f!r} of {cls.name} refers to field {real!r}, it stands for {want!r}")
                else:
                    ctx.ok("alias")
            elif isinstance(real, str) and real != f:
                ctx.violate("alias", f"{cls.name}.{f}", at(st["name"][1]), f"field {f!r} of {cls.name} is read from field {real!r}")
        if f in ("col",) and "mapping" in st and st["mapping"][0] != "columns" or f.endswith("idx") and "mapping" in st and st["mapping"][0] != "index":
            ctx.violate("decode", f"{cls.name}.{f}", at(st["mapping"][1]), f"field {f!r} of {cls.name} is decoded with {st['mapping'][0]!r}")
        elif "mapping" in st and f not in maps and st["mapping"][0] in ("index", "columns") and f in layout and not f.endswith("idx") and f != "col":
            ctx.violate("decode", f"{cls.name}.{f}", at(st["mapping"][1]), f"field {f!r} of {cls.name} is decoded as {st['mapping'][0]!r}, it holds no such position")
        t = st.get("title", (None, None))
        if isinstance(t[0], str):
            others = {g: s["title"][0] for g, s in merged.items() if g != f and g in layout and isinstance(s.get("title", (None,))[0], str)}
            bad = [g for g in layout if g != f and norm(g) == norm(t[0])] if norm(f) != norm(t[0]) else []
            dup = [g for g, o in others.items() if norm(o) == norm(t[0])] if f in layout else []
            if bad or dup:
                ctx.violate("title", f"{cls.name}.{f}", at(t[1]), f"field {f!r} of {cls.name} is shown as {t[0]!r}, the title of field {(bad or dup)[0]!r}")
            else:
                words = set("".join(c if c.isalnum() else " " for c in t[0].lower()).split())
                clash = clash_words(f, words)
                if clash:
                    ctx.violate("title", f"{cls.name}.{f}", at(t[1]), f"field {f!r} of {cls.name} is shown as {t[0]!r}")
                else:
                    ctx.ok("title")
    return dict(layout=layout, maps=maps, merged=merged)


PAIRS = [("entry", "exit"), ("start", "end"), ("peak", "valley"), ("peak", "end"), ("valley", "end"), ("price", "fees"), ("size", "price"), ("pnl", "return"), ("cash", "debt"),
         ("position", "cash"), ("new", "request"), ("result", "request"), ("min", "max"), ("direction", "status")]


def clash_words(f, words):
    """The title uses the opposite word of the field's name."""
    fw = {"request" if w == "req" else "result" if w == "res" else w for w in f.split("_")}
    return any((a in fw and b not in fw and b in words and a not in words) or (b in fw and a not in fw and a in words and b not in words) for a, b in PAIRS)


def enum_name(prog, v):
    if isinstance(v, Assign):
        return v.name.split(".")[-1]
    if isinstance(v, ClassInfo):
        return v.name
    if isinstance(v, Opaque):
        n = v.node
        if isinstance(n, ast.Call):     # a named tuple instance: its class
            d = (dotted(n.func) or "").split(".")[-1]
            return d[:-1] if d.endswith("T") else d or None
    if isinstance(v, str):
        return repr(v)
    return None


def field_read(node):
    """'f' if node reads record field f by name: x.get_field_arr('f'), x.values['f'], x.records_arr['f'], x.get_map_field('f'), x.get_map_field_to_index('f')."""
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("get_field_arr", "get_map_field", "get_map_field_to_index", "get_apply_mapping_arr", "map_field") and node.args:
        f = const(node.args[0])
        return f if isinstance(f, str) else None
    if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Attribute) and node.value.attr in ("values", "records_arr", "recarray"):
        f = const(node.slice)
        return f if isinstance(f, str) else None
    return None


def check_uses(ctx, prog, cfgs, fields):
    allf = set().union(*fields.values())
    for q in CLASSES:
        cls = prog.require(q)
        cfg = cfgs[cls.name]
        if not cfg:
            continue
        names = cfg["layout"] | set(ALIASES.get(cls.name, {}))
        for m in cls.methods.values():
            for fn in [m] + list(prog._nested(m)):
                uses_in(ctx, prog, cls, fn, names, cfg["maps"], m)


def uses_in(ctx, prog, cls, fn, names, maps, outer):
    reads = {}
    for n in walk_scope(fn.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            f = field_read(n.value)
            v = n.targets[0].id
            if f is not None:
                reads.setdefault(v, []).append(f)
                if f not in names:
                    ctx.violate("use", f"{cls.name}.{outer.name}:{f}", fn.loc(n), f"{cls.name}.{outer.name} reads field {f!r}, which its records do not have")
                elif v != f and v.rstrip("_") in names and v.rstrip("_") != f and ALIASES.get(cls.name, {}).get(v) != f:
                    ctx.violate("use", f"{cls.name}.{outer.name}:{v}", fn.loc(n), f"{cls.name}.{outer.name} binds field {f!r} to {v!r}, the name of another field")
                else:
                    ctx.ok("use")
            elif isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ("get_field_title", "get_field_mapping") and n.value.args:
                f = const(n.value.args[0])
                w = v.rsplit("_", 1)[0]
                if isinstance(f, str) and w in names and f in names and w != f:
                    ctx.violate("use", f"{cls.name}.{outer.name}:{v}", fn.loc(n), f"{cls.name}.{outer.name} takes the title of field {f!r} for {v!r}")
                elif isinstance(f, str):
                    ctx.ok("use")
            else:
                reads.setdefault(v, []).append(None)
    holder = outer
    for n in walk_scope(fn.node):
        if isinstance(n, ast.Compare) and len(n.comparators) == 1:
            for a, b in ((n.left, n.comparators[0]), (n.comparators[0], n.left)):
                f = field_read(a)
                if f is None and isinstance(a, ast.Name):
                    fs = set(reads.get(a.id) or reads_in(prog, holder, a.id))
                    f = fs.pop() if len(fs) == 1 else None
                if f in maps and isinstance(b, ast.Attribute):
                    ent = prog.resolve(b.value, fn.module, fn)
                    en = getattr(prog.deref(ent) if ent is not None else None, "name", None)
                    if en is None:
                        continue
                    en = en.split(".")[-1]
                    if en != maps[f] and en[:1].isupper():
                        ctx.violate("use", f"{cls.name}.{outer.name}:{f}=={src(b)}", fn.loc(n), f"{cls.name}.{outer.name} compares field {f!r} with {src(b)}, it holds {maps[f]} codes")
                    else:
                        ctx.ok("use")
        if isinstance(n, ast.Call):
            args = [(k.arg, k.value) for k in n.keywords if k.arg]
            ent = prog.resolve(n.func, fn.module, fn)
            ent = prog.deref(ent) if ent is not None else None
            if isinstance(ent, FunctionInfo):
                args = [(p, a) for p, a in zip(ent.param_names, n.args) if not isinstance(a, ast.Starred)] + args
            for p, a in args:
                f = field_read(a)
                if f is None or p is None:
                    continue
                base = p[:-4] if p.endswith("_arr") else p
                if base in names and f in names and base != f and ALIASES.get(cls.name, {}).get(base) != f:
                    ctx.violate("use", f"{cls.name}.{outer.name}:{p}", fn.loc(a), f"{cls.name}.{outer.name} passes field {f!r} as {p!r} of {src(n.func)}")
                else:
                    ctx.ok("use")


def reads_in(prog, fn, name):
    out = []
    for n in walk_scope(fn.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
            out.append(field_read(n.value))
    return out
