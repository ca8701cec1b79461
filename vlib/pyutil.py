"""Helpers shared by the checks of the Python codec."""
import contextlib

from . import tool
from .engine import Discard, Violation


@contextlib.contextmanager
def compiled(schema, ctx, outs=("python",), import_violation=True, need_python=True):
    """Compiles and imports a valid schema.

    A schema refused by prophyc is outside of most properties (C12 decides that).
    """
    with tool.PySchema(schema, ctx.scratch, outs) as py:
        if not py.outcome.ok:
            raise Discard("prophyc refused: {}".format(type(py.outcome.error).__name__))
        if need_python and py.import_error is not None:
            if import_violation:
                raise Violation("generated Python module does not import: " + tool.describe_error(py.import_error),
                                schema=py.text)
            raise Discard("import failed")
        yield py


def hexdump(data):
    return data.hex(" ", 4) if data else "(empty)"


def diff_text(want, got):
    pos = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
    return "expected {} bytes: {}\ngot      {} bytes: {}\nfirst difference at offset {}".format(
        len(want), hexdump(want), len(got), hexdump(got), pos)


def value_text(value):
    return repr(value)
