PLANTS = {
 "c15-trail-kept-on-override": dict(pid="C15", first=True,
    edits=[("portfolio/nb.py", """                                        sl_curr_price[col] = sl_init_price[col] = new_init_price
                                        sl_curr_stop[col] = _sl_stop
                                        sl_curr_trail[col] = _sl_trail
""", """                                        sl_curr_price[col] = sl_init_price[col] = new_init_price
                                        sl_curr_stop[col] = _sl_stop
""")],
    demo='''
import pandas as pd, numpy as np
import vectorbt as vbt
close = pd.Series([10., 10., 20., 17., 16., 15.])
e = pd.Series([True, True, False, False, False, False])
x = pd.Series(False, index=close.index)
kw = dict(accumulate=True, size=1., upon_stop_update="override")
a = vbt.Portfolio.from_signals(close, e, x, sl_stop=0.1, sl_trail=pd.Series([False, True, True, True, True, True]), **kw)
assert a.orders.count() == 3, a.orders.records_readable
''',
    needs="a position increased by an order that overrides a plain stop loss with a trailing one",
    breaks="the stop keeps the old kind, so it does not trail the price"),
 "c04-seed-zero-shuffle": dict(pid="C04",
    edits=[("generic/nb.py", '''    """2-dim version of `shuffle_1d_nb`."""
    if seed is not None:
''', '''    """2-dim version of `shuffle_1d_nb`."""
    if seed:
''')],
    demo='''
import pandas as pd
import vectorbt as vbt
sr = pd.Series(range(50)).astype(float)
a = sr.vbt.shuffle(seed=0)
b = sr.vbt.shuffle(seed=0)
assert a.equals(b), "seed 0 gives two different shuffles"
''',
    needs="a seed of zero",
    breaks="the seed is not applied, so results differ from run to run"),
 "c03-combine-other-list": dict(pid="C03",
    edits=[("indicators/factory.py", "                    other = list(other)\n", "                    other = other if isinstance(other, list) else list(other)\n")],
    demo='''
import pandas as pd
import vectorbt as vbt
sr = pd.Series([1., 2., 3., 2., 1., 4.])
a, b = vbt.MA.run(sr, 2), vbt.MA.run(sr, 3)
others = [a, b]
vbt.MA.run(sr, 4).ma_above(others)
assert others[0] is a and others[1] is b, "the caller's list now holds " + type(others[0]).__name__
''',
    needs="comparing an indicator with a list (not a tuple) of indicator objects",
    breaks="the list of indicators the caller passed is overwritten with arrays"),
 "c11-custom-result-cached": dict(pid="C11",
    edits=[("utils/attr_.py", """                if use_caching and not custom_k:
                    cache_dct[attr] = out""", """                if use_caching:
                    cache_dct[attr] = out""")],
    demo='''
from vectorbt.utils.attr_ import AttrResolver
class A(AttrResolver):
    def get_x(self, k=1):
        return k
cache = {}
a = A()
a.resolve_attr("x", cond_kwargs=dict(k=5), custom_arg_names={"k"}, cache_dct=cache)
out = a.resolve_attr("x", cond_kwargs={}, cache_dct=cache)
assert out == 1, f"got the result of the customised metric: {out}"
''',
    needs="a metric with a custom argument resolved before another metric that uses the same attribute",
    breaks="the second metric reads the result cached for the first one's custom argument"),
 "c16-explicit-false-overruled": dict(pid="C16",
    edits=[("base/array_wrapper.py", """        if column_only_select is None:
            column_only_select = self.column_only_select
""", """        column_only_select = column_only_select or self.column_only_select
""")],
    demo='''
import pandas as pd, numpy as np
from vectorbt.base.array_wrapper import ArrayWrapper
w = ArrayWrapper(index=[0, 1, 2, 3], columns=["a", "b", "c"], ndim=2, column_only_select=True)
new = w.indexing_func_meta(lambda x: x.iloc[:2, 1:], column_only_select=False)[0]
assert new.shape == (2, 2), new.shape
''',
    needs="an object that selects columns only, and column_only_select=False passed explicitly",
    breaks="the explicitly passed False is overruled by the object's own setting"),
 "c23-columns-aligned-by-index-rule": dict(pid="C23",
    edits=[("data/base.py", "        new_data = self.align_columns(new_data, missing=self.missing_columns)\n\n        # Concatenate", "        new_data = self.align_columns(new_data, missing=self.missing_index)\n\n        # Concatenate")],
    demo='''
import pandas as pd, numpy as np
import vectorbt as vbt
class D(vbt.Data):
    @classmethod
    def download_symbol(cls, symbol, n=3, start="2020-01-01", **kwargs):
        idx = pd.date_range(start, periods=n, freq="D", tz="UTC")
        cols = ["a", "b"] if symbol == 0 else ["b", "c"]
        return pd.DataFrame(1.0, index=idx, columns=cols)
    def update_symbol(self, symbol, **kwargs):
        return self.download_symbol(symbol, n=2, start="2020-01-03")
d = D.download([0, 1], missing_index="raise", missing_columns="drop")
u = d.update()
assert list(u.data[0].columns) == ["b"] and len(u.data[0].index) == 4, u.data[0]
''',
    needs="symbols with different columns and different rules for missing rows and missing columns",
    breaks="updating applies the rule for missing rows to columns, so the update fails or keeps other columns than were held"),
 "c14-breakout-threshold-axis": dict(pid="C14",
    edits=[("labels/nb.py", """            _neg_th = abs(flex_select_auto_nb(neg_th, i, col, flex_2d))

            for j in range(i + wait,""", """            _neg_th = abs(flex_select_auto_nb(neg_th, i, col))

            for j in range(i + wait,""")],
    demo='''
import numpy as np
from vectorbt.labels import nb
close = np.array([[10.], [9.], [8.], [7.], [6.]])
th = np.array([0.5, 0.01, 0.5, 0.01, 0.5])
a = nb.breakout_labels_nb(close, 1, np.array(0.), th, 1, False)
b = nb.breakout_labels_nb(close, 1, np.array(0.), th[:, None], 1, True)
np.testing.assert_array_equal(a, b)
''',
    needs="a negative threshold given as one value per row of a Series",
    breaks="the value of the first row is used for every row"),
 "c25-cached-property-second-test": dict(pid="C25",
    edits=[("utils/decorators.py", """                val = cache.get(self.attrname, _NOT_FOUND)
                if val is _NOT_FOUND:
                    val = self.func(instance)
                    cache[self.attrname] = val""", """                val = self.func(instance)
                cache[self.attrname] = val""")],
    demo='''
import threading, time
from vectorbt.utils.decorators import cached_property
n = []
class A:
    @cached_property
    def x(self):
        n.append(1)
        time.sleep(0.3)
        return object()
a = A()
out = []
ts = [threading.Thread(target=lambda: out.append(a.x)) for _ in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
assert len(n) == 1 and len(set(map(id, out))) == 1, (len(n), len(set(map(id, out))))
''',
    needs="several threads reading the same cached property for the first time",
    breaks="the property is computed once per waiting thread and readers get different objects"),
 "c19-filter-templates-raw": dict(pid="C19",
    edits=[("generic/stats_builder.py", "                _filter_settings = deep_substitute(filter_settings, mapping=mapping)\n", "                _filter_settings = filter_settings\n")],
    demo='''
import pandas as pd, warnings
import vectorbt as vbt
warnings.simplefilter("ignore")
df = pd.DataFrame(dict(a=[1., 2.], b=[3., 4.]))
s = df.vbt.stats(metrics=[("m", dict(title="M", calc_func=lambda self: self.obj.sum(), check_f=True))],
                 filters=dict(f=dict(filter_func=vbt.Rep("func"))), template_mapping=dict(func=lambda self, settings: True))
assert s["M"] == 5.0, s
''',
    needs="a statistics filter whose settings contain a template",
    breaks="the template inside the filter is not replaced"),
 "c06-latest-dropped-with-at": dict(pid="C06",
    edits=[("utils/schedule_.py", """        if to is not None:
            job = job.to(to)""", """        if to is not None and unit is None:
            job = job.to(to)""")],
    demo='''
from vectorbt.utils.schedule_ import ScheduleManager
m = ScheduleManager()
job = m.every(5, "minutes", to=10)
assert job.latest == 10, job.latest
''',
    needs="a random interval given together with a unit",
    breaks="the upper bound of the interval is ignored"),
}
