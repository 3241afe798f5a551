PLANTS = {
 "c10-delattr-unguarded": dict(
    edits=[("utils/config.py", "            self.__delitem__(k)", "            self.__delitem__(k, force=not self.readonly_)")],
    demo='''
from vectorbt.utils.config import Config
c = Config(dict(a=1, b=2), frozen_keys=True)
try:
    del c.a
except (KeyError, TypeError):
    pass
assert list(c) == ["a", "b"], dict(c)
''',
    needs="deleting a key of a frozen (not read-only) configuration through attribute access",
    breaks="a key is removed from a configuration whose keys are frozen"),
 "c10-clear-keeps-attrs": dict(
    edits=[("utils/config.py", "            for k in set(prior_keys).difference(self.keys()):", "            for k in [k for k in prior_keys[1:] if k not in self]:")],
    demo='''
from vectorbt.utils.config import Config
c = Config(dict(a=1, b=2), as_attrs=True)
c.pop("a")
assert "a" not in c
assert not hasattr(c, "a"), "attribute survives its key"
''',
    needs="removing the first key of a configuration with attribute access",
    breaks="attribute view still shows a key the configuration no longer has"),
 "c10-pop-default-unguarded": dict(
    edits=[("utils/config.py", '''        """Remove and return the pair by the key."""
        if not force and self.readonly_:''', '''        """Remove and return the pair by the key."""
        if not force and self.readonly_ and v is _RaiseKeyError:''')],
    demo='''
from vectorbt.utils.config import Config
c = Config(dict(a=1, b=2), readonly=True, frozen_keys=False)
try:
    c.pop("a", None)
except (KeyError, TypeError):
    pass
assert dict(c) == dict(a=1, b=2), dict(c)
''',
    needs="pop with a default on a read-only configuration",
    breaks="an item of a read-only configuration is removed"),
}
