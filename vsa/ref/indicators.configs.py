"""Reviewed reference definitions of vectorbt.indicators.configs (functions as name__ref, methods as name__of__Class)."""
from vectorbt.utils.config import Config
from vectorbt.indicators.configs import flex_elem_param_config, flex_col_param_config


def flex_elem_param_config__decl():
    return Config(dict(is_array_like=True, bc_to_input=True, broadcast_kwargs=dict(keep_raw=True)))


def flex_col_param_config__decl():
    return Config(dict(is_array_like=True, bc_to_input=1, per_column=True, broadcast_kwargs=dict(keep_raw=True)))
