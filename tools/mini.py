"""Write a small product in a scratch directory and read it with pdr."""
import atexit
import os
import shutil
import tempfile
import warnings

import numpy as np

warnings.simplefilter("ignore")
DIR = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, DIR, ignore_errors=True)


def put(name, data):
    p = os.path.join(DIR, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    return p


def label(text, name="x.lbl"):
    lines = [x.strip() for x in text.strip().split("\n")]
    return put(name, "PDS_VERSION_ID = PDS3\r\n" + "\r\n".join(lines)
               + "\r\nEND\r\n")


def read(name="x.lbl", **k):
    import pdr
    return pdr.read(os.path.join(DIR, name), **k)


def same(got, want):
    got, want = np.asarray(got), np.asarray(want)
    assert got.shape == want.shape, (got.shape, want.shape)
    assert (got == want).all(), (got, want)
