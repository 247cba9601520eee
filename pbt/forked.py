"""Calls in a child process, which leave no trace in this one."""
import os
import pickle
import signal


def apart(fn, seconds=120):
    """The result of fn() in a forked child, as ("ok", value) or ("raised", text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(seconds)
            try:
                out = ("ok", fn())
            except BaseException as exc:
                out = ("raised", "%s: %s" % (type(exc).__name__, exc))
            with os.fdopen(w, "wb") as fh:
                fh.write(pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    finally:
        os.waitpid(pid, 0)
    if not data:
        return "raised", "the process died"
    return pickle.loads(data)
