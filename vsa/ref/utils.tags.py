"""Reviewed reference definitions of vectorbt.utils.tags (functions as name__ref, methods as name__of__Class)."""
import ast
from vectorbt import _typing as tp
from vectorbt.utils.template import RepEval
from vectorbt.utils.tags import match_tags


def match_tags__ref(tags, in_tags):
    if isinstance(tags, str):
        tags = [tags]
    if isinstance(in_tags, str):
        in_tags = [in_tags]
    for in_t in in_tags:
        if not in_t.isidentifier():
            raise ValueError(f"Tag '{in_t}' must be an identifier")
    for t in tags:
        if not t.isidentifier():
            node_ids = [node.id for node in ast.walk(ast.parse(t)) if type(node) is ast.Name]
            eval_mapping = {id_: id_ in in_tags for id_ in node_ids}
            eval_result = RepEval(t).eval(eval_mapping)
            if not isinstance(eval_result, bool):
                raise TypeError(f"Tag expression '{t}' must produce a boolean")
            if eval_result:
                return True
        elif t in in_tags:
            return True
    return False
