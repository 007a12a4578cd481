"""Imports the library under test from /repo's working tree, once, in the zygote."""
import importlib
import os
import sys

from . import core

loaded = False


def load():
    global loaded
    if loaded:
        return
    # third-party code first, with its normal byte-code caches
    import numpy, pandas, scipy.signal, scipy.special, statsmodels.api, tomli, yaml, tqdm  # noqa: F401
    import pandas.io.parsers, mmap, zoneinfo  # noqa: F401
    tqdm.tqdm.monitor_interval = 0        # no background monitor thread
    import tqdm.std
    tqdm.std.tqdm.monitor_interval = 0
    sys.path.insert(0, core.REPO)
    old = sys.pycache_prefix
    sys.pycache_prefix = '/nonexistent-dst-cache'      # never a stale .pyc of the tree under test
    from . import sched
    undo = sched.patch_locks()
    try:
        import shipgrav
        for m in ('io', 'grav', 'nav', 'utils'):
            importlib.import_module('shipgrav.' + m)
    finally:
        undo()
        sys.pycache_prefix = old
    root = os.path.realpath(os.path.join(core.REPO, 'shipgrav'))
    got = os.path.realpath(os.path.dirname(shipgrav.__file__))
    if root != got:
        raise RuntimeError('imported %s instead of %s' % (got, root))
    sched.lib_codes()       # before gc.freeze hides them
    warm()
    loaded = True


def warm():
    """Lazy imports of third-party code happen here, not inside a run."""
    import io
    import pandas as pd
    import numpy as np
    pd.read_csv(io.StringIO('1,2\n3,4\n'), names=['a', 'b'], converters={'a': int})
    pd.read_fwf(io.StringIO('a 1\nb 2\n'), names=['a', 'b'])
    pd.to_datetime(['2020-01-01 00:00:00.5'], utc=True)
    pd.to_datetime(pd.DataFrame({'year': [2020], 'month': [1], 'day': [1]}), utc=True)
    pd.to_datetime(['2020-01-01T00:00:00Z'], format='ISO8601')
    np.fft.fft2(np.ones((2, 2)))
    import datetime
    datetime.datetime.strptime('2020', '%Y')
