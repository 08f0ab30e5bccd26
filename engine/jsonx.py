import math

import numpy as real_np


def jsonable(x):
    if hasattr(x, '_symarr'):
        x = x._symarr()
    if isinstance(x, (bool, real_np.bool_)):
        return bool(x)
    if type(x).__name__ == 'Sym':
        if x.kind:
            return x.kind
        c = x.const()
        return float(c) if c is not None else 'sym'
    if isinstance(x, real_np.ndarray) and x.ndim == 0:
        return jsonable(x[()])
    if isinstance(x, (list, tuple, real_np.ndarray)):
        return [jsonable(e) for e in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (int, real_np.integer)):
        return float(x)
    if isinstance(x, (float, real_np.floating)):
        f = float(x)
        return 'nan' if f != f else ('inf' if f == math.inf else ('-inf' if f == -math.inf else f))
    if x is None or isinstance(x, str):
        return x
    return repr(type(x).__name__)
