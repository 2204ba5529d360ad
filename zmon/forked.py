"""Run a function in a fresh forked child and get its (pickled) result: a process history of its own for each call."""
import os
import pickle
import select
import signal
import time
import traceback


class ChildFailed(Exception):
    pass


class ChildHangs(Exception):
    pass


def fork_call(fn, *args, timeout=300):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            try:
                data = pickle.dumps(("ok", fn(*args)))
            except BaseException:  # noqa: B902
                data = pickle.dumps(("error", traceback.format_exc()))
            with os.fdopen(wfd, "wb") as f:
                f.write(data)
        finally:
            os._exit(code)
    os.close(wfd)
    buf = bytearray(); end = time.time() + timeout
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([rfd], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                raise ChildHangs(f"no answer within {timeout} s")
            part = os.read(rfd, 1 << 20)
            if not part:
                break
            buf += part
    finally:
        os.close(rfd); os.waitpid(pid, 0)
    if not buf:
        raise ChildFailed("the child ended without an answer")
    kind, res = pickle.loads(bytes(buf))
    if kind == "error":
        raise ChildFailed(res)
    return res
