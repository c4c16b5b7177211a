"""Runs inside of a separate Python process: executes calls on the real build."""
import pickle
import struct
import sys
import os


def main():
    inp = os.fdopen(os.dup(0), "rb")
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    sys.dont_write_bytecode = True
    import numpy as np
    ns = {"np": np}
    import importlib

    def dec(x):
        if isinstance(x, tuple) and x and x[0] == "__raw__":
            return x[1]
        if isinstance(x, tuple) and x and x[0] == "__arr__":
            _, dims, strides, off, buf, dt = x
            b = bytearray(buf)
            if 0 in dims:
                return np.empty(dims, dt)
            return np.ndarray(dims, dt, buffer=b, offset=off, strides=strides)
        if isinstance(x, tuple):
            return tuple(dec(y) for y in x)
        if isinstance(x, list):
            return [dec(y) for y in x]
        if isinstance(x, dict):
            return {k: dec(v) for k, v in x.items()}
        return x
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        req = pickle.loads(inp.read(struct.unpack("<q", h)[0]))
        try:
            if req[0] == "call":
                m = importlib.import_module("eoxmagmod." + req[1])
                args, kw = dec(req[3]), dec(req[4])
                r = getattr(m, req[2])(*args, **kw)
                res = ("ok", r)
            elif req[0] == "calls":
                rs = []
                for c in req[1]:
                    m = importlib.import_module("eoxmagmod." + c[0])
                    rs.append(getattr(m, c[1])(*dec(c[2]), **dec(c[3])))
                res = ("ok", rs)
            elif req[0] == "exec":
                loc = dict(ns)
                loc.update(dec(req[2]))
                loc["dec"] = dec
                exec(req[1], loc)
                res = ("ok", loc.get("result"))
            else:
                res = ("err", "ServerError", "bad request")
        except BaseException as e:
            res = ("err", type(e).__name__, str(e))
        try:
            b = pickle.dumps(res)
        except BaseException as e:
            b = pickle.dumps(("err", "Unpicklable", str(e)))
        out.write(struct.pack("<q", len(b)) + b)
        out.flush()


if __name__ == "__main__":
    main()
