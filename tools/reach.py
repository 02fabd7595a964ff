#!/usr/bin/env python3
"""
which kinds of arguments the functions under test were never given.

    : > /tmp/reach.tsv; chmod 666 /tmp/reach.tsv
    VMON_SCALE=0.6 VMON_REACH=/tmp/reach.tsv python run.py C10 ...
    python3 tools/reach.py /tmp/reach.tsv 'REGEX of functions' [WIDTH]

only for judging and widening the workloads; no check uses it.
"""
import re
import sys
from collections import defaultdict

TEXT = ("0 1 <=16 <=64 <=255 <=4096 >4096 subclass nonascii astral surrogate "
        "newline cr tab null quote backslash digits edgespace upper "
        "underscore dunder dot slash percent braces keyword").split() + [
            "inner space", "mixed case"]
INT = ("0 1 small <2^15 <2^31 <2^53 <2^63 <2^200 huge negative "
       "subclass").split()
FLOAT = ("nan inf -inf 0.0 -0.0 integral fraction tiny vast negative "
         "subclass").split()
SIZE = [f"<={n}" for n in (0, 1, 2, 5, 16, 64, 255, 1000, 10000)]
FAMILIES = [("text", TEXT, "text:"), ("key text", TEXT, "key text:"),
            ("int", INT, "int:"), ("key int", INT, "key int:"),
            ("float", FLOAT, "float:")] + [
                (k, SIZE, k + " ") for k in
                ("list", "tuple", "set", "dict dict", "bytes")]
PLAIN = re.compile(r"(key )?(text|int|float|bool)"
                   r"|(list|tuple|set|frozenset|dict dict|bytes) [<>]|depth")


def main(path, regex=".", width=300):
    by = defaultdict(set)
    with open(path, errors="replace") as rows:
        for row in rows:
            row = row.rstrip("\n").split("\t")
            if len(row) == 4:
                by[row[1], row[2]].add(row[3].replace("in:", ""))
    for (function, parameter), got in sorted(by.items()):
        if (not re.search(regex, function) or parameter == "()"
                or "lambda" in function or parameter.startswith("self.")):
            continue
        depth = max((f for f in got if f.startswith("depth")), default="-")
        print(function, parameter, "|", depth)
        for name, all_of_them, prefix in FAMILIES:
            have = {f[len(prefix):] for f in got if f.startswith(prefix)}
            lacks = [f for f in all_of_them if f not in have]
            if have and lacks:
                print(f"      {name} lacks", ", ".join(lacks))
        rest = sorted(f for f in got if not PLAIN.match(f))
        print("      also", ", ".join(rest)[:int(width)])


if __name__ == "__main__":
    main(*sys.argv[1:])
