"""Classification of exceptions that end a simulated thread."""
import traceback


def frames(e):
    out = []
    tb = e.__traceback__
    while tb is not None:
        out.append((tb.tb_frame.f_code.co_filename, tb.tb_lineno, tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    return out


def classify_exception(e, thread):
    from . import world
    fr = frames(e)
    text = "; ".join(f"{f.rsplit('/', 1)[-1]}:{n} {name}" for f, n, name in fr[-6:])
    if any(f.startswith(world.REPO + "/nion/") for f, _, _ in fr):
        return "violation", "unexpected-exception", f"{type(e).__name__}: {e} in {thread!r} at {text}"
    if isinstance(e, Exception) and not isinstance(e, MemoryError):
        # the scenario holds on the unchanged tree without such an error: the code answered in a way it cannot answer
        return "violation", "unexpected-answer", f"{type(e).__name__}: {e} in {thread!r} at {text}"
    return "harness-error", "harness-error", f"{type(e).__name__}: {e} in {thread!r} at {text}"
