FAKE = '''
import sys, types
import numpy as np
import vectorbt as vbt
from vectorbt import _engine
log = []
def fake(modname, **routines):
    """Stand-in for the compiled engine: records what it is handed."""
    top = types.ModuleType("vectorbt_rust")
    top.__version__ = vbt.__version__
    m = types.ModuleType("vectorbt_rust." + modname)
    for n, f in routines.items():
        setattr(m, n, f)
    setattr(top, modname, m)
    sys.modules["vectorbt_rust"] = top
    sys.modules["vectorbt_rust." + modname] = m
    _engine.clear_engine_cache()
'''
PLANTS = {
 "c05-ewm-std-compiled-args": dict(
    edits=[("generic/dispatch.py", "return ewm_std_1d_rs(a, span, minp, adjust, ddof)", "return ewm_std_1d_rs(a, span, minp, bool(ddof), adjust)")],
    demo=FAKE + '''
def ewm_std_1d_rs(a, span, minp=0, adjust=False, ddof=0):
    log.append(dict(span=span, minp=minp, adjust=adjust, ddof=ddof))
    return a
fake("generic", ewm_std_1d_rs=ewm_std_1d_rs)
from vectorbt.generic import dispatch
dispatch.ewm_std_1d(np.array([1., 2., 3.]), 5, minp=2, adjust=False, ddof=1, engine="rust")
assert log == [dict(span=5, minp=2, adjust=False, ddof=1)], log
''',
    needs="the compiled engine selected for a 1-dim EW standard deviation with adjust differing from ddof",
    breaks="the compiled routine receives adjust and ddof exchanged, so the engine changes the result"),
 "c05-between-ranges-wait": dict(
    edits=[("generic/dispatch.py", "return crossed_above_1d_rs(arr1, arr2, wait)", "return crossed_above_1d_rs(arr1, arr2)")],
    demo=FAKE + '''
def crossed_above_1d_rs(arr1, arr2, wait=0):
    log.append(wait)
    return arr1
fake("generic", crossed_above_1d_rs=crossed_above_1d_rs)
from vectorbt.generic import dispatch
dispatch.crossed_above_1d(np.array([1., 2., 3.]), np.array([2., 1., 1.]), wait=2, engine="rust")
assert log == [2], log
''',
    needs="the compiled engine selected for a crossover with a confirmation delay (wait > 0)",
    breaks="the compiled routine falls back to its own default for wait"),
 "c05-auto-engine-unsupported": dict(
    edits=[("generic/dispatch.py", '''            non_neg_int_compatible_with_rust("span", span),
            non_neg_int_compatible_with_rust("minp", minp),
            non_neg_int_compatible_with_rust("ddof", ddof),
        ),
    )
    if eng == "rust":
        from vectorbt_rust.generic import ewm_std_rs
''', '''            non_neg_int_compatible_with_rust("span", span),
            non_neg_int_compatible_with_rust("ddof", ddof),
        ),
    )
    if eng == "rust":
        from vectorbt_rust.generic import ewm_std_rs
''')],
    demo=FAKE + '''
def ewm_std_rs(a, span, minp=0, adjust=False, ddof=0):
    if minp < 0:
        raise OverflowError("can't convert negative int to unsigned")
    return a
fake("generic", ewm_std_rs=ewm_std_rs)
from vectorbt.generic import dispatch
a = np.array([[1.], [2.], [3.]])
ref = dispatch.ewm_std(a, 5, minp=-1, engine="numba")
out = dispatch.ewm_std(a, 5, minp=-1, engine="auto")   # has to fall back
np.testing.assert_allclose(out, ref)
''',
    needs="engine='auto' with the compiled engine installed and a negative minp",
    breaks="automatic selection picks the compiled engine for an input it does not support"),
}
