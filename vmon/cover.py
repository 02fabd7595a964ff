"""which lines of the code under test were executed"""
import sys
import types
from pathlib import Path

ROOT = "/repo/dustgoggles/"
seen = set()


def _line(code, line):
    if code.co_filename.startswith(ROOT):
        seen.add((code.co_filename[len(ROOT):], line))
    return sys.monitoring.DISABLE


def start():
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "vmon")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, _line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def stop():
    mon = sys.monitoring
    mon.set_events(mon.COVERAGE_ID, 0)
    mon.free_tool_id(mon.COVERAGE_ID)


def _lines(code):
    """lines of functions of a module (what runs on import is left out)"""
    out = set()
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            out |= _lines(const)
            if const.co_flags & 2:  # a function, not a class body
                out |= {ln for _, _, ln in const.co_lines()
                        if ln is not None and ln != const.co_firstlineno}
    return out


def executable(name):
    text = (Path(ROOT) / name).read_text()
    return _lines(compile(text, name, "exec"))
