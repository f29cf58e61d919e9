from __future__ import annotations

import numpy as np
from modssc.data_loader.types import LoadedDataset, Split


def inductive(y, y_test=None, *, meta=None, X=None, X_test=None):
    y = np.asarray(y)
    X = np.arange(2 * len(y), dtype=np.float64).reshape(-1, 2) if X is None else X
    test = None
    if y_test is not None:
        y_test = np.asarray(y_test)
        Xt = 1000 + np.arange(2 * len(y_test), dtype=np.float64).reshape(-1, 2) if X_test is None else X_test
        test = Split(X=Xt, y=y_test)
    return LoadedDataset(train=Split(X=X, y=y), test=test,
                         meta={"dataset_fingerprint": "fp"} if meta is None else meta)


def graph(y, edges, *, masks=None, X=None, meta=None):
    y = np.asarray(y)
    X = np.arange(2 * len(y), dtype=np.float64).reshape(-1, 2) if X is None else X
    return LoadedDataset(train=Split(X=X, y=y, edges=np.asarray(edges, dtype=np.int64).reshape(2, -1), masks=masks),
                         test=None, meta={"dataset_fingerprint": "fp"} if meta is None else meta)
