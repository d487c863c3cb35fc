"""Shared by the checks."""
import itertools
from . import terms, models
from .engine import Program, APath, Fn, Path
from .report import Broken, REPO
from .terms import Term, EngineError, PathEnd, is_term, show


def program(*before):
    """the package, loaded after the models in `before` were installed"""
    p = Program(REPO)
    for f in before:
        f(p)
    p.load("sd_mecha")
    return p


def anchor(prog, dotted):
    """A public name the analysis is anchored on."""
    v = prog.find(dotted)
    if v is None:
        raise Broken(f"anchor {dotted} does not exist any more")
    return v


def parallel(tasks, jobs=8):
    """run the thunks in forked processes; the results, in order (each must be picklable)"""
    import multiprocessing, pickle, os, traceback
    if os.environ.get("SA_SERIAL"):
        return [t() for t in tasks]
    ctx = multiprocessing.get_context("fork")
    results, running, todo = [None] * len(tasks), {}, list(range(len(tasks)))[::-1]

    def body(i, conn):
        try:
            r = ("ok", tasks[i]())
        except Broken as e:
            r = ("broken", str(e))
        except BaseException as e:
            r = ("error", f"{type(e).__name__}: {e}" + (("\n" + traceback.format_exc()) if os.environ.get("SA_DEBUG") else ""))
        conn.send_bytes(pickle.dumps(r))
        conn.close()
        os._exit(0)

    def reap(conn):
        i, proc = running.pop(conn)
        try:
            results[i] = pickle.loads(conn.recv_bytes())
        except EOFError:
            results[i] = ("error", "analysis process died")
        proc.join()

    from multiprocessing.connection import wait
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop()
            a, b = ctx.Pipe(False)
            proc = ctx.Process(target=body, args=(i, b))
            proc.start()
            b.close()
            running[a] = (i, proc)
        for conn in wait(list(running)):
            reap(conn)
    for k, v in results:
        if k != "ok":
            raise Broken(v)
    return [v for _, v in results]


def trace_of(path):
    return [f"{c} -> {'no' if v else 'yes'}" for c, v in path.choices]


class Sweep:
    """Traces of an entry, up to a budget; stops early once enough violations were found (`bad` grows)."""

    def __init__(self, prog, entry, bad=None, max_bad=4, seconds=None, max_paths=60000):
        import time, os
        self.truncated = False
        self.prog, self.entry, self.bad, self.max_bad = prog, entry, bad, max_bad
        self.deadline = time.time() + (seconds or (1500 if os.environ.get("VERIF_TIER") == "thorough" else 400))
        self.max_paths = max_paths

    def __iter__(self):
        import time
        it = self.prog.explore(self.entry, max_paths=1 << 60)
        n = 0
        while True:
            try:
                p = next(it)
            except StopIteration:
                return
            except EngineError:
                if self.bad:
                    return
                raise
            yield p
            n += 1
            if self.bad is not None and len(self.bad) >= self.max_bad:
                return
            if n >= self.max_paths or time.time() > self.deadline:
                self.truncated = True
                return
