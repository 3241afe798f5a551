"""Source of properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=list(observe), hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "No look-ahead: results at a row never depend on later rows",
  "Every rolling, expanding, forward-filling, differencing, indicator, signal-ranking, drawdown, return and portfolio-simulation computation that is not documented as forward-looking produces, for each row, a value determined only by the data of that row and of earlier rows. Appending, removing or changing rows after a given row therefore cannot change any value or any order reported at or before it. Only the functions documented as looking ahead (labels, backward shift, backward fill) may use later rows.",
  ["inputs", "configurations"], "all input series, window sizes, parameters and all rows of all numeric kernels that return one value per row, and all simulation modes",
  "Tests compare a handful of short fixed arrays against literals; an index that runs one row too far only matters for particular window, minimum-period and NaN combinations, so the quantifier over all inputs and rows is not reached.",
  ["vectorbt/generic/nb.py", "vectorbt/indicators/nb.py", "vectorbt/signals/nb.py", "vectorbt/returns/nb.py", "vectorbt/portfolio/nb.py", "vectorbt/base/reshape_fns.py"],
  [("window slicing and running accumulators of rolling/expanding kernels", "vectorbt/generic/nb.py"),
   ("row loop of the simulators and of the stop logic", "vectorbt/portfolio/nb.py"),
   ("rolling return metrics", "vectorbt/returns/nb.py")],
  observe=["values of the returned arrays", "order and log records"])

p("C02", "Columns and groups are processed independently of each other",
  "The result reported for one column (or, for grouped computations, one group) is determined by that column's (group's) own inputs only: adding, dropping or altering other columns or groups never changes it, apart from the running numbers records carry. In particular no running state survives from one column or group into the next.",
  ["inputs", "configurations"], "all arrays, numbers of columns, groupings and column orders, over every multi-column kernel",
  "Tests use two or three columns whose values often coincide; state that leaks between columns shows only for particular value combinations and orders.",
  ["vectorbt/generic/nb.py", "vectorbt/signals/nb.py", "vectorbt/returns/nb.py", "vectorbt/records/nb.py", "vectorbt/portfolio/nb.py", "vectorbt/labels/nb.py", "vectorbt/indicators/nb.py"],
  [("per-column loops that call a one-column kernel", "vectorbt/generic/nb.py"),
   ("group loops with from/to column bounds", "vectorbt/portfolio/nb.py"),
   ("column maps of records", "vectorbt/records/nb.py")],
  observe=["values of the returned arrays", "records"])

p("C03", "Caller's data is never modified",
  "No public computation modifies the arrays, Series, DataFrames, indexes, mappings or configuration dictionaries a caller passes in, nor the data held by an existing object whose method is called. The only exceptions are the documented in-place operations and output buffers.",
  ["inputs", "histories"], "all arguments of all functions and methods, and all call sequences sharing the same objects",
  "A test would have to compare every argument before and after every call on every path (dtype, contiguity, view or copy); the suite practically never re-reads its inputs.",
  ["vectorbt/generic/nb.py", "vectorbt/portfolio/nb.py", "vectorbt/portfolio/base.py", "vectorbt/base/array_wrapper.py", "vectorbt/base/reshape_fns.py", "vectorbt/base/accessors.py", "vectorbt/generic/accessors.py", "vectorbt/signals/nb.py", "vectorbt/utils/config.py", "vectorbt/indicators/factory.py", "vectorbt/data/base.py"],
  [("copies taken before element assignment", "vectorbt/generic/nb.py"),
   ("dictionary merging that builds new dictionaries", "vectorbt/utils/config.py"),
   ("wrapping of results", "vectorbt/base/array_wrapper.py")],
  observe=["arguments after the call", "attributes of objects after a method call"])

p("C04", "A seed fully determines every random result",
  "Any operation that involves chance and accepts a seed returns identical results for identical inputs and seed: when a seed is given it is applied before the first random draw, and it reaches the code that draws. Operations that do not involve chance never consume or reset random state.",
  ["inputs", "histories"], "all random generators and simulations, all seeds, and all preceding uses of random state",
  "Tests fix one seed and call each generator a few times in a fresh state; whether some path draws before seeding, or loses the seed on the way, depends on the path and on earlier draws.",
  ["vectorbt/generic/nb.py", "vectorbt/signals/nb.py", "vectorbt/signals/accessors.py", "vectorbt/signals/factory.py", "vectorbt/signals/dispatch.py", "vectorbt/generic/dispatch.py", "vectorbt/portfolio/nb.py", "vectorbt/portfolio/base.py", "vectorbt/labels/nb.py", "vectorbt/data/custom.py", "vectorbt/utils/random_.py"],
  [("seeding guard at the start of random kernels", "vectorbt/signals/nb.py"), ("seed resolution before simulation", "vectorbt/portfolio/base.py")],
  observe=["returned arrays", "global random state"])

p("C05", "Choosing the execution engine never changes what is computed",
  "Every operation that can run on either execution engine hands both engines the same arguments, in the order and with the defaults that engine's routine declares, so engine choice affects speed only. An unknown engine name, or an explicit request for an engine that cannot serve the call, is reported as an error instead of being ignored, and automatic selection only picks the compiled engine for calls it supports.",
  ["inputs", "configurations"], "all dispatched operations, argument types and engine selections",
  "The compiled engine is an optional package that is absent when the suite runs, so its branch of every dispatcher is never executed by the tests.",
  ["vectorbt/_engine.py", "vectorbt/generic/dispatch.py", "vectorbt/indicators/dispatch.py", "vectorbt/labels/dispatch.py", "vectorbt/portfolio/dispatch.py", "vectorbt/records/dispatch.py", "vectorbt/returns/dispatch.py", "vectorbt/signals/dispatch.py", "rust/src/generic.rs", "rust/src/portfolio.rs", "rust/src/signals.rs", "rust/src/returns.rs", "rust/src/records.rs", "rust/src/labels.rs", "rust/src/indicators.rs"],
  [("engine resolution and support checks", "vectorbt/_engine.py"), ("paired branches of each dispatcher", "vectorbt/*/dispatch.py"), ("exported signatures of the compiled engine", "rust/src/*.rs")],
  observe=["returned values", "raised errors"])

p("C06", "Every option given to an operation reaches the computation it configures",
  "An option a caller passes to a public operation takes effect: it is handed on, unaltered and under the same meaning, to every lower layer that declares it, is never exchanged with another option, and is never accepted and then silently dropped in favour of the lower layer's default.",
  ["inputs", "configurations"], "all operations, all options, and all combinations of options",
  "Tests exercise most options of most operations only at their defaults; an option lost or swapped between layers is invisible until that option is set to a non-default value in that mode.",
  ["vectorbt/portfolio/base.py", "vectorbt/portfolio/nb.py", "vectorbt/portfolio/dispatch.py", "vectorbt/generic/accessors.py", "vectorbt/generic/dispatch.py", "vectorbt/signals/accessors.py", "vectorbt/signals/factory.py", "vectorbt/returns/accessors.py", "vectorbt/indicators/factory.py", "vectorbt/records/base.py", "vectorbt/records/mapped_array.py"],
  [("keyword forwarding through constructors, dispatchers and kernels", "vectorbt/portfolio/base.py"), ("helper constructors of orders", "vectorbt/portfolio/nb.py")],
  observe=["results with the option set and unset"])

p("C07", "Every record field is populated and carries what its name says",
  "Every order, trade, position, drawdown, range and log record returned to the user has all its fields set, each from the quantity of that name at the moment the record describes, including the column and row it belongs to. Coded fields (status, side, direction and the like) are decoded with the code list that was used to write them.",
  ["inputs", "histories"], "all record types, all code paths that create or update a record, all inputs",
  "Record arrays are allocated uninitialised, so a forgotten field holds whatever memory held; tests check a few records, usually of closed trades on one path.",
  ["vectorbt/portfolio/nb.py", "vectorbt/portfolio/enums.py", "vectorbt/generic/nb.py", "vectorbt/generic/enums.py", "vectorbt/portfolio/orders.py", "vectorbt/portfolio/trades.py", "vectorbt/portfolio/logs.py", "vectorbt/generic/ranges.py", "vectorbt/generic/drawdowns.py"],
  [("record layouts", "vectorbt/portfolio/enums.py"), ("record filling routines", "vectorbt/portfolio/nb.py"), ("field configuration of record classes", "vectorbt/portfolio/trades.py")],
  observe=["fields of returned records", "readable record tables"])

p("C08", "Cash, position and debt bookkeeping conserve value on every fill",
  "Each executed order changes cash by exactly the traded value plus fees and the position by exactly the traded size, on every path including partial fills, short positions and position reversal, and free cash and debt change consistently with them. Cash flows and asset flows later reconstructed from order records, and the simulated cash and position, follow the same equations.",
  ["inputs", "histories"], "all order sizes, prices, fee and slippage settings, cash levels, long and short positions and order histories",
  "The equations have to hold for all real-valued combinations on each of a dozen branch combinations; tests evaluate a few literals per branch.",
  ["vectorbt/portfolio/nb.py"],
  [("buy and sell execution", "vectorbt/portfolio/nb.py:buy_nb, sell_nb"), ("cash-flow and free-cash reconstruction", "vectorbt/portfolio/nb.py:cash_flow_nb, get_free_cash_diff_nb"), ("asset flow reconstruction", "vectorbt/portfolio/nb.py:asset_flow_nb")],
  state=[("cash, position, debt, free cash", "account state before and after an order", "vectorbt/portfolio/enums.py:ExecuteOrderState")],
  observe=["order records", "log records", "cash and asset series"])

p("C09", "Order outcome protocol: no side effects unless filled, one record per fill",
  "An order that is ignored or rejected leaves the account (cash, position, debt, free cash) exactly as it was and adds no order record, while a filled order adds exactly one, and every processed order with logging on adds exactly one log entry. Records are numbered consecutively in the order of execution, a full record buffer is reported as an error before anything is written past it, and a rejection raises when the order asks for it.",
  ["inputs", "histories"], "all orders, all rejection reasons, all record capacities and logging settings",
  "There are about twenty distinct rejection and ignore exits across nested routines and seven simulators; tests reach each at most once and rarely compare the whole account state.",
  ["vectorbt/portfolio/nb.py", "vectorbt/portfolio/enums.py"],
  [("order execution exits", "vectorbt/portfolio/nb.py:execute_order_nb"), ("order processing and record counters", "vectorbt/portfolio/nb.py:process_order_nb"), ("rejection messages", "vectorbt/portfolio/enums.py")],
  observe=["order records", "log records", "raised errors"])

p("C10", "Read-only and frozen configurations cannot be altered by any operation",
  "Once a configuration is declared read-only no dictionary operation can add, change or remove its items, and once its keys are frozen no dictionary operation can add or remove a key, unless the caller explicitly forces it. Attribute-style access always shows the same items as dictionary access, and resetting or copying restores or preserves exactly the items and these protections.",
  ["histories", "configurations"], "all sequences of dictionary operations, all flag combinations and nesting",
  "The dictionary interface has many mutating operations and syntaxes; tests try some of them on one flag combination.",
  ["vectorbt/utils/config.py", "vectorbt/_settings.py"],
  [("overridden mutating operations", "vectorbt/utils/config.py:Config"), ("guarded item helpers", "vectorbt/utils/config.py")],
  observe=["items of the configuration", "raised errors"])

p("C11", "Objects are immutable and cached results are never stale",
  "After construction, reading attributes, computing metrics, indexing, regrouping, plotting or copying never changes an object's own data or configuration, so a cached result always equals what recomputing it would return. Cached results are distinguished by every argument that can change them, are stored per object, and are neither shared with, nor carried over to, objects derived from it.",
  ["histories", "schedules"], "all call sequences on an object and on objects derived from it, with caching on or off, from one or several threads",
  "Staleness shows only for particular sequences of calls (and argument values that compare equal across types); tests build fresh objects and call each method once.",
  ["vectorbt/utils/decorators.py", "vectorbt/utils/config.py", "vectorbt/base/array_wrapper.py", "vectorbt/base/column_grouper.py", "vectorbt/records/base.py", "vectorbt/records/mapped_array.py", "vectorbt/portfolio/base.py", "vectorbt/data/base.py"],
  [("cached property and cached method descriptors", "vectorbt/utils/decorators.py"), ("replace-by-reconstruction", "vectorbt/utils/config.py:Configured.replace")],
  observe=["return values of repeated calls", "attributes of the object"])

p("C12", "Selecting columns selects every part of an object consistently",
  "Indexing an object by columns or groups yields an object in which every column- or group-dependent member is restricted to exactly the selected columns or groups, in the selected order, with matching labels and grouping. Members are never left unselected, dropped, or selected with the positions of another axis or level.",
  ["inputs", "configurations"], "all classes supporting indexing, all selections (single, reordered, repeated), with and without grouping and cash sharing",
  "Selections are sampled on a two- or three-column object and rarely with more than two groups; inconsistent members appear only with particular groupings and orders.",
  ["vectorbt/base/array_wrapper.py", "vectorbt/records/base.py", "vectorbt/records/mapped_array.py", "vectorbt/portfolio/base.py", "vectorbt/generic/ranges.py", "vectorbt/generic/drawdowns.py", "vectorbt/portfolio/orders.py", "vectorbt/portfolio/trades.py", "vectorbt/generic/accessors.py", "vectorbt/returns/accessors.py", "vectorbt/signals/accessors.py", "vectorbt/indicators/factory.py", "vectorbt/data/base.py"],
  [("per-class indexing functions", "vectorbt/*: indexing_func"), ("index metadata", "vectorbt/base/array_wrapper.py:indexing_func_meta")],
  observe=["members of the selected object"])

p("C13", "A grouping argument governs both the computation and its labels",
  "Whenever an operation accepts a grouping argument, everything it computes and the labels it puts on the result use that same grouping, so the number and order of values always match the labels. Explicitly asking for no grouping gives per-column results even on a grouped object.",
  ["inputs", "configurations"], "all operations with a grouping argument, all groupings including enabling, disabling and changing it",
  "Most tests group at construction time or not at all; the cross product of operations and grouping overrides is sampled sparsely.",
  ["vectorbt/portfolio/base.py", "vectorbt/records/base.py", "vectorbt/records/mapped_array.py", "vectorbt/records/col_mapper.py", "vectorbt/generic/accessors.py", "vectorbt/generic/ranges.py", "vectorbt/generic/drawdowns.py", "vectorbt/returns/accessors.py", "vectorbt/signals/accessors.py", "vectorbt/base/column_grouper.py", "vectorbt/base/array_wrapper.py", "vectorbt/portfolio/trades.py", "vectorbt/portfolio/orders.py"],
  [("forwarding of the grouping argument", "vectorbt/portfolio/base.py"), ("grouping resolution", "vectorbt/base/column_grouper.py")],
  observe=["shape and labels of results"])

p("C14", "Scalars, per-row, per-column and full arrays are interchangeable",
  "Wherever an operation accepts a broadcastable argument, passing a scalar, a single row, a single column or the equivalent full array gives the same result, because each element is looked up by broadcasting rules for the row and column being processed. No such argument is read at a fixed or foreign position.",
  ["inputs"], "all broadcastable arguments of the simulators, stop generators and label generators; all broadcast shapes",
  "Each of some fifty broadcastable arguments times four shapes times several simulators would need its own comparison; the suite mixes shapes in a few calls.",
  ["vectorbt/base/reshape_fns.py", "vectorbt/portfolio/nb.py", "vectorbt/signals/nb.py", "vectorbt/labels/nb.py", "vectorbt/generic/nb.py"],
  [("flexible element selection", "vectorbt/base/reshape_fns.py:flex_select_auto_nb"), ("per-element lookups in simulators", "vectorbt/portfolio/nb.py")],
  observe=["returned arrays and records"])

p("C15", "Signal and stop resolution follows the documented mode in every case",
  "For every combination of simultaneous entry and exit signals, current position and conflict, direction, accumulation, stop-exit and stop-update mode, the simulator takes the action documented for that mode. No combination is left undefined or handled as another mode.",
  ["inputs", "configurations"], "the full finite product of signal flags, position signs and mode values",
  "The product has thousands of combinations across several resolver routines and two simulators; tests pick a few dozen.",
  ["vectorbt/portfolio/nb.py", "vectorbt/portfolio/enums.py"],
  [("conflict and opposite-entry resolvers", "vectorbt/portfolio/nb.py"), ("documented meaning of the modes", "vectorbt/portfolio/enums.py")],
  observe=["order records produced from signals"])

p("C16", "Unset options follow the global setting of the same meaning, which stays intact",
  "An option left unset takes the value of the global setting with the same meaning at call time, and an explicitly passed value always wins over the setting. Running operations never alters the global settings.",
  ["configurations", "histories"], "all options with a global default, all settings changes, all call sequences",
  "Tests run with default settings, under which a wrong or missing setting is indistinguishable from the right one.",
  ["vectorbt/_settings.py", "vectorbt/portfolio/base.py", "vectorbt/base/reshape_fns.py", "vectorbt/base/array_wrapper.py", "vectorbt/generic/stats_builder.py", "vectorbt/generic/plots_builder.py", "vectorbt/returns/accessors.py", "vectorbt/data/base.py"],
  [("settings tree", "vectorbt/_settings.py"), ("default resolution at the start of public operations", "vectorbt/portfolio/base.py")],
  observe=["results under changed settings", "settings after a call"])

p("C17", "Built-in indicators, labels and signal generators declare what they compute",
  "Every built-in indicator, label and signal generator binds its declared inputs, parameters and keyword options to the arguments of the underlying computation that have the same meaning, and names its outputs in the order in which that computation returns them.",
  ["inputs", "configurations"], "all built-in indicator, label and signal-generator declarations and all parameter values",
  "Tests run each with one or two parameter sets in which exchanged parameters or options at their defaults often give the same result.",
  ["vectorbt/indicators/basic.py", "vectorbt/indicators/nb.py", "vectorbt/indicators/dispatch.py", "vectorbt/labels/generators.py", "vectorbt/labels/nb.py", "vectorbt/labels/dispatch.py", "vectorbt/signals/generators.py", "vectorbt/signals/nb.py", "vectorbt/signals/dispatch.py"],
  [("factory declarations", "vectorbt/indicators/basic.py, vectorbt/labels/generators.py, vectorbt/signals/generators.py"), ("computation signatures", "vectorbt/indicators/nb.py")],
  observe=["indicator outputs", "parameter-dependent results"])

p("C18", "Every predefined metric and subplot refers to things that exist",
  "Every metric and subplot predefined for a statistics or plotting report can be resolved: the attribute, method and options it names exist on the object it is defined for, its tags and titles are unique and usable, and methods attached from tables point to existing targets. No report fails or silently omits an entry because a definition is broken.",
  ["configurations"], "all predefined metrics, subplots and table-driven methods of all classes",
  "Tests render the default reports and a few tag filters; entries outside them are resolved lazily by name at run time and never reached.",
  ["vectorbt/portfolio/base.py", "vectorbt/generic/accessors.py", "vectorbt/generic/drawdowns.py", "vectorbt/generic/ranges.py", "vectorbt/portfolio/orders.py", "vectorbt/portfolio/trades.py", "vectorbt/portfolio/logs.py", "vectorbt/records/base.py", "vectorbt/records/mapped_array.py", "vectorbt/returns/accessors.py", "vectorbt/signals/accessors.py", "vectorbt/data/base.py", "vectorbt/indicators/factory.py"],
  [("metric and subplot tables", "vectorbt/*: _metrics, _subplots"), ("attached-method tables", "vectorbt/returns/accessors.py")],
  observe=["statistics and plots by tag and by name"])

p("C19", "Templates are substituted in every place that accepts them",
  "Every kind of template the library recognises is replaced by its value wherever it may occur, at any nesting depth in tuples, lists, dictionaries and named tuples, before the enclosing arguments are used. No argument documented to accept templates reaches user callbacks unsubstituted, and the template objects themselves are left unchanged.",
  ["inputs", "configurations"], "all template kinds, container nestings and template-accepting arguments",
  "Tests substitute one template kind in one argument; the product of kinds, containers and about twenty accepting arguments is not covered.",
  ["vectorbt/utils/template.py", "vectorbt/portfolio/base.py", "vectorbt/generic/stats_builder.py", "vectorbt/generic/plots_builder.py", "vectorbt/generic/accessors.py", "vectorbt/indicators/factory.py"],
  [("detection and substitution", "vectorbt/utils/template.py"), ("substitution of callback arguments", "vectorbt/portfolio/base.py")],
  observe=["arguments seen by callbacks"])

p("C20", "All simulation modes maintain the same account state around each order",
  "Column-by-column, row-by-row and flexible simulation feed every order the current account state of its column and group, store back every quantity the order changed to that same column and group, and give user callbacks the same information under the same names. With equal callbacks and settings the modes therefore account for orders identically.",
  ["inputs", "configurations", "histories"], "all simulation modes, groupings, call sequences and callbacks",
  "The seven simulators repeat this bookkeeping separately; tests compare modes on a few examples in which an unrestored quantity often equals its old value.",
  ["vectorbt/portfolio/nb.py", "vectorbt/portfolio/enums.py"],
  [("state read, order processing and state write-back in each simulator", "vectorbt/portfolio/nb.py"), ("callback contexts", "vectorbt/portfolio/enums.py")],
  state=[("last cash/position/debt/free cash/value/price/return arrays", "account state per column and group", "vectorbt/portfolio/nb.py")],
  observe=["records", "context passed to callbacks"])

p("C21", "Enumerated options: every member is accepted, distinct and handled",
  "Every member of every documented option list has its own code, is accepted by name in any letter case, decodes back to the same name, and is handled explicitly where the option takes effect. A code outside the list is never treated as a valid member.",
  ["inputs", "configurations"], "all members of all option lists and all places that branch on them",
  "Tests exercise the common members; rarely used ones fall through to a default branch without an error.",
  ["vectorbt/portfolio/enums.py", "vectorbt/signals/enums.py", "vectorbt/labels/enums.py", "vectorbt/generic/enums.py", "vectorbt/utils/enum_.py", "vectorbt/utils/mapping.py", "vectorbt/portfolio/nb.py", "vectorbt/labels/nb.py", "rust/src/portfolio.rs"],
  [("option lists", "vectorbt/*/enums.py"), ("branches on options", "vectorbt/portfolio/nb.py")],
  observe=["results per member", "raised errors"])

p("C22", "Splits never overlap: sets of a split are disjoint, ordered and complete",
  "For every splitter and every setting, the sets a range is split into are consecutive, disjoint, in time order and together cover exactly that range; ranges the splitter generates itself lie inside the data. Invalid lengths are reported as errors and never produce empty or overlapping sets.",
  ["inputs", "configurations"], "all data lengths, range and window lengths, set lengths (absolute and relative) and orders",
  "Tests use a five-row index; rounding, relative lengths and right-to-left splits are combined only once or twice.",
  ["vectorbt/generic/splitters.py"],
  [("division of a range into sets", "vectorbt/generic/splitters.py:split_ranges_into_sets"), ("range generation", "vectorbt/generic/splitters.py")],
  observe=["index arrays of the sets"])

p("C23", "Updating data keeps history and prefers new values",
  "Updating downloaded data keeps every previously held row and symbol, appends the new rows in order after them, and lets a newly fetched row replace an old row of the same timestamp. The stored options of the original request, such as time zones and missing-value policy, apply to updates as well.",
  ["histories", "inputs"], "all sequences of updates, overlaps between old and new rows, symbol sets and time zones",
  "Tests update a synthetic source once; overlap, repeated updates and symbol-specific options are sampled.",
  ["vectorbt/data/base.py", "vectorbt/data/custom.py", "vectorbt/data/updater.py"],
  [("merge of old and new rows", "vectorbt/data/base.py:Data.update"), ("per-symbol options", "vectorbt/data/base.py")],
  observe=["data after an update"])

p("C24", "Saved objects restore to equal objects",
  "Anything saved to bytes or to a file restores to an object of the same type with the same data and configuration, including read-only and frozen protection and the state it can be reset to. Every piece of state written is read back under the same name.",
  ["histories", "inputs"], "all picklable classes, all contents and all flag combinations",
  "Tests round-trip one instance of some classes and compare by equality that ignores several flags.",
  ["vectorbt/utils/config.py"],
  [("writer and reader of configurations", "vectorbt/utils/config.py:Config.dumps, Config.loads, Config.load_update"), ("writer and reader of configured objects", "vectorbt/utils/config.py:Configured, Pickleable")],
  observe=["restored object"])

p("C25", "Concurrent readers see each cached value computed once and complete",
  "When several threads read the same cached property of one object, it is computed once and each gets the complete value; a cached method gets exactly one result cache per object, published complete. Computing a cached value may read further cached values without the reader blocking itself. Background jobs started by the library stop when asked and never run user work twice for one schedule slot.",
  ["schedules"], "all interleavings of threads reading cached attributes, and of background jobs with start and stop requests",
  "Tests are single-threaded apart from a trivial background-start example; interleavings are not controlled.",
  ["vectorbt/utils/decorators.py", "vectorbt/utils/schedule_.py"],
  [("double-checked locking", "vectorbt/utils/decorators.py"), ("cancellation of background tasks", "vectorbt/utils/schedule_.py")],
  observe=["number of computations", "termination"])

p("C26", "Both engines return numerically equal results",
  "For every operation implemented by both execution engines and every input both accept, the results agree up to floating-point rounding.",
  ["inputs"], "all inputs of all dual-engine operations",
  "The compiled engine is not built where the tests run.",
  ["rust/src/generic.rs", "rust/src/portfolio.rs", "vectorbt/generic/nb.py", "vectorbt/portfolio/nb.py"],
  [("parallel implementations", "rust/src/*.rs and vectorbt/*/nb.py")], observe=["returned values"])

p("C27", "Indicators and metrics compute their textbook definitions",
  "Every indicator, rolling statistic, label, signal generator, record statistic and performance metric computes its published definition (or the documented behaviour of the counterpart it cites) for every input, including missing values and degenerate series, up to floating-point rounding.",
  ["inputs"], "all input series and parameters",
  "Tests compare on short fixed series.",
  ["vectorbt/indicators/nb.py", "vectorbt/generic/nb.py", "vectorbt/returns/nb.py"],
  [("numeric kernels", "vectorbt/*/nb.py")], observe=["returned values"])

for d in P:
    print(json.dumps(d))
