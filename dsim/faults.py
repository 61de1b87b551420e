"""The exceptions harness code raises on purpose (failing callbacks, functions, storage)."""
import queue


class Injected(Exception):
    """Raised under changing guises: code that contains only some kinds of failure is found out."""
    count = 0

    def __new__(cls, *args):
        if cls is Injected:
            Injected.count += 1
            cls = GUISES[(Injected.count * 7) % len(GUISES)]
        return super().__new__(cls, *args)


GUISES = [Injected, Injected, Injected] + [type("Injected" + b.__name__, (Injected, b), {}) for b in (RuntimeError, ValueError, OSError, KeyError, TypeError, IndexError, AssertionError, NotImplementedError, TimeoutError, queue.Empty)]


class InjectedBase(BaseException):
    """For places where even failures outside the Exception hierarchy (interrupt, cancellation) are covered."""


def reset(n):
    Injected.count = n
