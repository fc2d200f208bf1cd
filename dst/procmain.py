"""Another process: runs a part of a history under another string hash seed.

stdin: JSON {"blob": base64 pickle or null, "spec", "ops", "proto", "seed"}
stdout: JSON {"results": [...], "blob": base64}
"""
import base64
import json
import os
import pickle
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def play(job, core):
    from dst.checks import c15
    keep = [object() for _ in range(job["pad"])]      # other addresses   # noqa
    try:
        return {"results": c15.play(job["play"])}
    except Exception as e:   # noqa
        if not core.in_library(e.__traceback__):
            raise
        return {"error": "%s: %s" % (type(e).__name__, e)}


def main():
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(3000)
    from dst import core, history
    core.import_jsgf()
    import jsgf as J
    job = json.loads(sys.stdin.buffer.read().decode())
    from dst import model as M
    if "play" in job:
        sys.stdout.write(json.dumps(play(job, core)))
        return
    spec = job["spec"]
    try:
        if job["blob"]:
            g = pickle.loads(base64.b64decode(job["blob"]))
        else:
            g = M.build_grammar(spec, J)
        h = history.History(g, spec, J)
        results = [h.do(op) for op in job["ops"]]
        out = {"results": results}
        if job["blob"]:
            out["blob"] = base64.b64encode(pickle.dumps(g, job["proto"])).decode()
    except Exception as e:   # noqa
        if not core.in_library(e.__traceback__) and not isinstance(
                e, (pickle.PickleError, AttributeError, TypeError, EOFError)):
            raise
        out = {"error": "%s: %s" % (type(e).__name__, e)}
    sys.stdout.write(json.dumps(out))


if __name__ == "__main__":
    main()
