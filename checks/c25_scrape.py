"""C25: scraped labels vs what was written into them"""
import io
import os
import re
from pathlib import Path

from dustgoggles import scrape
from vmon import gen
from vmon.compare import same
from vmon.core import Check, Workload

KEYS = ["NAME", "LINES", "A", "B", "X:Y", "END", "TIME", "KEY_2", "clé", "^IM",
        "name", "Name", "END_GROUP", "KEY_20", "CLÉ", "A B", "TIME.START",
        "日本", "🦀", "K" * 70, "__class__", "0", "#"]
# of label files
FILES = ["label.lbl", "LABEL.LBL", "a label.txt", "é.lbl", "日本.img", "x",
         "quo'te.lbl", 'dou"ble', "100%.lbl", "{0}.lbl", "a" * 120 + ".lbl",
         "no.ext.at.all.", "~", "-n", "*.lbl", "$HOME", "back\\slash", "#1",
         "label.lbl.gz", "label.zip", "http:", ".hidden", " edge ", "tab\t.lbl"]

# texts that are Python literals, and what they mean
LITERALS = [
    ("1", 1), ("-5", -5), ("0", 0), ("0x1F", 31), ("0b11", 3), ("1_000", 1000),
    ("1.5", 1.5), ("-1e-5", -1e-5), ("1e400", float("inf")), (".5", 0.5),
    ("'a'", "a"), ('"a b"', "a b"), ("b'x'", b"x"), ("None", None),
    ("True", True), ("False", False), ("(1, 2)", (1, 2)), ("[]", []),
    ("()", ()), ("{}", {}), ("{1: 'a'}", {1: "a"}), ("{1, 2}", {1, 2}),
    ("1, 2", (1, 2)), ("1,", (1,)), ("[1, [2.5, 'x']]", [1, [2.5, "x"]]),
    ("1+2j", 1 + 2j), ("'a' 'b'", "ab"), ("''", ""), ("  7", 7),
    ("set()", set()), ("'\\n'", "\n"), ("r'\\n'", "\\n"), ("2 # two", 2),
    ("'''x'''", "x"), ("+3", 3), ("(5)", 5), ("10" * 40, int("10" * 40)),
]
# texts that are not
OTHERS = [
    "abc", "2020-01-01", "2020-01-01T00:00:00.000", "07", "1.2.3", "a b", "",
    "(1, 2", "'a", "1 + 2", "nan", "inf", "true", "null", "f(1)", "x.y",
    "__import__('os')", "lambda: 1", "[x for x in y]", "1 <DEG>", "5 km", "%",
    "\\", "é", "日本", "{1: 2", "{[]: 1}", "{{}}", "1;2", "not 1", "~1",
    "a=1", "0o9", "1__0", "'\ud800'", "f'{1}'", "...x", "N/A", "-'a'",
    "(" * 300 + ")" * 300, "-" * 20000 + "1", "9" * 5000, "[" * 5000, "1" + "+1" * 10000,
    "1 if 1 else 2", "'a' % 1", "b'é'", "\t\tq", "\x00", "1\x00", "yes",
    "abc ", " abc", "  a  b  ", "abc\t", "'a", "a'", '"', "x\u00a0", "\u2003y",
    "ABC", "Abc", "e\u0301", "1 2", "1-2", "12:30", "1/2", "<1>", "(a, b)",
    "{1, []}", "*a", "=", "1e", "0x", "'\\x'", "'\\N{nope}'", "5<m>",
]


def value(rng):
    """(text of one line, what a scraper makes of it)"""
    roll = rng.random()
    if roll < 0.4:
        return rng.choice(LITERALS)
    if roll < 0.8:
        text = rng.choice(OTHERS)
        return text, text
    literal = gen.literal(rng, 2)
    text = repr(literal)
    if "\n" in text or "nan" in text or "inf" in text:
        return "1", 1
    return text, literal


def w_scraper(mon, rng):
    lines, first = [], {}
    eol = rng.choice(["\n", "\r\n"])
    sep = rng.choice(["=", " = ", ": ", "=   "])
    for _ in range(gen.size(rng, [0, 1, 3, 10, 30], 0.01, (300, 3000))):
        key = rng.choice(KEYS)
        text, means = value(rng)
        if "\r" in text:
            text, means = "1", 1
        lines.append(f"{key}{sep}{text}")
        if key not in first:
            first[key] = (text, means)
    label = eol.join(lines)
    if rng.random() < 0.3:
        label += eol
    elif lines and eol == "\r\n":
        label += "\r"
    if eol == "\r\n":
        # "." matches carriage returns, so they are part of what is captured
        first = {k: (t + "\r", m + "\r" if m is t else m)
                 for k, (t, m) in first.items()}
        mon.ev("crlf_labels")
    scraper = scrape.make_scraper(label)
    for key in rng.sample(KEYS, 8):
        pattern = f"(?m)^{re.escape(key)}{re.escape(sep)}(.*)$"
        roll = rng.random()
        if roll < 0.3:
            pattern = re.compile(pattern)
        elif roll < 0.4:
            pattern = re.compile(pattern[4:], re.M)
        elif roll < 0.5:
            pattern = (f"(?mx) ^ {re.escape(key)} {re.escape(sep)} "
                       f"(.*) $  # {key}\n")
        elif roll < 0.6:
            # further groups
            pattern = pattern[:-5] + rng.choice(
                ["(.*)()$", "((.*))$", "(?P<value>.*)$", "(.*)($)(x)?",
                 "(.*)(?P<end>$)", "((?P<value>.*))$()"])
        for _ in range(2):
            got = scraper(pattern)
            if key not in first:
                mon.check(got is None, "no match", got=got, key=key)
                mon.ev("no_match")
            else:
                text, means = first[key]
                mon.check(same(got, means), "scraped value", got=got,
                          want=means, text=text, label=label)
                mon.ev("literals" if not isinstance(means, str) or
                       means != text else "plain_texts")
    # a group that takes no part in the match
    got = scrape.make_scraper("b")(r"(a)?b")
    mon.check(got is None, "group that matched nothing", got=got)
    mon.sig("scraper", len(lines), len(first), tuple(sorted(
        k for k, v in first.items() if v[0] is v[1])))
    mon.sample(f"{label[:200]!r}")


def w_hostile(mon, rng):
    """any text at all"""
    text = "".join(gen.text(rng, 20) for _ in range(rng.randint(0, 4)))
    pattern = rng.choice([r"(?s)(.*)", r"(\w+)", r"(.+)", r"(?s)^(.{0,5})",
                          r"'(.*)", r"(\d*)"])
    if rng.random() < 0.3:
        # patterns mean what they mean without any flag
        text = rng.choice(["\n", "\r\n", "\n\n", " "]).join(
            rng.choice(["ab", "Ab", "a b", "b", "AB c", "", "a\tb", "1", "é"])
            for _ in range(rng.randint(0, 6)))
        pattern = rng.choice([
            r"^(\w+)$", r"^b(.*)", r"^(A.*)", r"(.*)$", r"(b)$", r"(c)\Z",
            r"\A(\w)", r"A(.*)", r"a.(.*)", r"a (.*)", r"a(.*)b", r"(a.b)",
            r"(b\s+a)", r"([^a]*)$", r"#(.*)", r"(\w+)  # word",
            r"(?i)A(.)", r"(?s)b(.*)", r"(\d)|b", r"b()", r"(É)", r"(?i)(É)"])
        if rng.random() < 0.3:
            pattern = re.compile(pattern)
    got = scrape.make_scraper(text)(pattern)
    m = re.search(pattern, text)
    if m is None:
        mon.check(got is None, "no match")
        return
    if m.group(1) is None:
        mon.check(got is None, "group that matched nothing", got=got)
    elif isinstance(got, str) and got == m.group(1):
        mon.ev("hostile_texts")
    else:
        # it was converted: the text is a spelling of the value
        back = scrape.make_scraper(repr(got))(r"(?s)(.*)")
        mon.check(same(back, got) or got != got, "converted value", got=got,
                  text=m.group(1))
        mon.check(not re.fullmatch(r"[A-Za-z]\w*", m.group(1)) or m.group(1)
                  in ("None", "True", "False"), "a word was converted",
                  got=got, text=m.group(1))
    mon.sig("hostile", text)


def body(rng, n):
    """bytes that decode, however they are cut"""
    return bytes(rng.choice(b"abcEND \r\n=()'019\x00\x01") for _ in range(n))


MARKS = (b"END\r\n", b"\x00\x00\x00")


def content(rng):
    parts = []
    for _ in range(rng.randint(0, 5)):
        parts.append(rng.choice([
            lambda: body(rng, rng.randint(0, 40)), lambda: MARKS[0],
            lambda: MARKS[1], lambda: b"END\n", lambda: b"\x00\x00",
            lambda: b"END", lambda: b"\r\n", lambda: b"END_OBJECT\r\n",
            lambda: b"BLEND\r\n", lambda: b"x" * rng.choice([100, 35592]),
            lambda: "".join(rng.choice("aé日😀\r\n=") for _ in range(
                rng.randint(1, 40))).encode(),
            lambda: "é".encode() * rng.choice([20, 50, 17796, 20000]),
        ])())
    return b"".join(parts)


def named(rng, path):
    return rng.choice([str, Path])(path)


def faithful(mon, load, data):
    try:
        got = load()
    except UnicodeDecodeError:
        mon.ev("not_text_refused")
        return
    for how in ("strict", "surrogateescape"):
        try:
            if got.encode("utf-8", how) == data:
                mon.ev("not_text_told")
                return
        except UnicodeEncodeError:
            pass
    mon.check(False, "bytes of a label were replaced or dropped",
              got=got[-100:], want=data[-100:])


def w_files(mon, rng):
    data = content(rng)
    if rng.random() < 0.05:
        data += b"y" * 500 * 1024
    garbage = rng.random() < 0.3
    path = "label.lbl" if rng.random() < 0.5 else rng.choice(FILES)
    cut = rng.choice([0, 1, 5, 50, 35592, 10**7, len(data), max(
        len(data) - 1, 0), len(data) + 1])
    tail = rng.choice([b"\xff\xfe\x80" * 5, b"ok \xe9t\xe9", b"\xc3",
                       b"abc\xf0\x9f\x98"]) if garbage else b""
    Path(path).write_bytes(data + tail)
    whole = data + tail
    # --- heads
    how = rng.randrange(4)
    if how == 0:
        source = named(rng, path)
    elif how == 1:
        source = open(path, "rb")
    elif how == 2:
        source = open(path, "rb", buffering=0)
    else:
        source = io.BytesIO(whole)
    head = scrape.head_file(source, cut)
    mon.check(head.tell() == 0, "position of the head")
    mon.eq(head.read(), whole[:cut], "head of a file", cut=cut)
    mon.ev("heads")
    # --- texts
    if not garbage:
        for load in (scrape.get_label_text, scrape.cached_label_loader):
            # (a cached loader must see each case's own file)
            where = named(rng, os.path.abspath(path))
            sizes = (cut,) if rng.random() < 0.5 else ()
            want = data[:sizes[0] if sizes else 35592]
            try:
                want.decode()
            except UnicodeDecodeError:
                # a character is cut in two
                faithful(mon, lambda: load(where, *sizes), want)
                mon.ev("cut_characters")
                continue
            got = load(where, *sizes)
            mon.check(got == want.decode(), "text of a label", got=got[:300],
                      want=want[:300], cut=cut)
            mon.ev("texts")
            mon.ev("texts_beyond_ascii", not want.isascii())
    else:
        # bytes which are no text: refused, or returned in a form that
        # still tells every byte, but never replaced or dropped
        for load in (scrape.get_label_text, scrape.cached_label_loader):
            size = rng.choice([len(whole), len(data) + rng.randint(1, 14),
                               cut])
            faithful(mon, lambda: load(named(rng, os.path.abspath(path)),
                                       size), whole[:size])
    # --- trimmed
    limited = rng.random() < 0.6
    limit = cut if limited else 500 * 1024
    seen = whole[:limit]
    want, marked = seen, False
    for mark in MARKS:
        at = seen.find(mark)
        if at >= 0:
            want, marked = seen[:at + len(mark)], True
            break
    strict = rng.random() < 0.4
    args = {"max_size": limit} if limited else {}
    if strict:
        args["raise_for_failure"] = True
    for trim in (scrape.trim_label, scrape.cached_label_trimmer):
        where = named(rng, os.path.abspath(path))
        if not marked and strict:
            mon.raises(ValueError, lambda: trim(where, **args), "no marker")
            mon.ev("unmarked")
            continue
        try:
            want.decode()
        except UnicodeDecodeError:
            faithful(mon, lambda: trim(where, **args), want)
            continue
        got = trim(where, **args)
        mon.check(got == want.decode(), "trimmed label", got=got[-300:],
                  want=want[-300:], limit=limit, data=data[:300])
        mon.ev("trimmed" if marked else "whole_heads")
    mon.check(Path(path).read_bytes() == whole, "file modified")
    mon.sig("files", len(data), cut, marked, limited, strict, garbage)


def w_patterns(mon, rng):
    nfiles = gen.size(rng, range(6), 0.01, (40, 140))
    files, contents = [], {}
    for i in range(nfiles):
        pairs = {k: value(rng) for k in rng.sample(KEYS, rng.randint(0, 6))}
        pairs = {k: v for k, v in pairs.items() if "\r" not in v[0] and
                 "\ud800" not in v[0] and len(v[0]) < 2000}
        name = rng.choice([f"l{i}.lbl", f"{i}" + rng.choice(FILES)])
        if rng.random() < 0.1:
            os.makedirs(f"dir {i}", exist_ok=True)
            name = f"dir {i}/../dir {i}/{name}"
        path = named(rng, os.path.abspath(".") + "/" + name)
        Path(path).write_bytes("".join(
            f"{k}={t}\n" for k, (t, _) in pairs.items()).encode())
        files.append(path)
        contents[path] = pairs
    if files and rng.random() < 0.3:
        files.append(rng.choice(files))
    wanted = {f"f{i}" if rng.random() < 0.7 else gen.rich_key(rng): k
              for i, k in enumerate(rng.sample(KEYS, rng.randint(0, 6)))}
    if rng.random() < 0.02:
        wanted |= {i: rng.choice(KEYS) for i in range(rng.choice([70, 300]))}
    regex = {f: f"(?m)^{re.escape(k)}=(.*)$" for f, k in wanted.items()}
    extra, seen = None, []
    if rng.random() < 0.5:
        extra = {rng.choice(["f0", "f1", "new", "f9"] + list(wanted)[:2]
                            + [gen.rich_key(rng)]):
                 rng.choice([rng.randint(0, 9), None, "", "text", False,
                             gen.rich(rng)])
                 for _ in range(rng.randint(0, 3))}

    def supplement(label, text):
        seen.append((label, text))
        return dict(extra)
    opts = {} if extra is None else {"supplemental_search_function":
                                     supplement}
    loaded = []

    def own_loader(label):
        loaded.append(label)
        return scrape.get_label_text(label, 1 << 20)
    loader = rng.choice([None, scrape.get_label_text, scrape.trim_label,
                         own_loader])
    if loader is not None:
        opts["label_loader"] = loader

    def one(label):
        return scrape.scrape_patterns(label, regex, **opts)

    got = scrape.bulk_scrape_metadata(iter(files) if rng.random() < 0.5
                                      else files, one)
    mon.check(type(got) is list and len(got) == len(files),
              "one result per file", got=len(got), want=len(files))
    for path, result in zip(files, got):
        pairs = contents[path]
        want = {f: pairs[k][1] if k in pairs else None
                for f, k in wanted.items()}
        want |= extra or {}
        mon.check(set(result) == set(want) and all(
            same(result[k], want[k]) for k in want), "scraped metadata",
            got=result, want=want)
        for f, k in wanted.items():
            alone = scrape.scrape_from_file(path, regex[f])
            fresh = pairs[k][1] if k in pairs else None
            mon.check(same(alone, fresh), "cached scrape", got=alone,
                      want=fresh)
            mon.ev("cached_scrapes")
        mon.ev("fields", len(want))
    if extra is not None:
        texts = [Path(p).read_bytes().decode() for p in files]
        mon.check([(str(a), b) for a, b in seen] ==
                  [(str(p), t) for p, t in zip(files, texts)],
                  "arguments of the supplemental search", got=seen[:2])
        mon.ev("supplemented", len(seen))
        mon.check([type(a) for a, _ in seen] == list(map(type, files)),
                  "labels given to the supplemental search", got=seen[:2])
    if loader is own_loader:
        mon.check(loaded == files and
                  list(map(type, loaded)) == list(map(type, files)),
                  "labels given to the loader", got=loaded, want=files)
        mon.ev("own_loaders")
    here = os.path.abspath(".")
    mon.eq(sorted(scrape.cached_ls(here)), sorted(os.listdir(here)), "ls")
    for path in files[:3] + [os.path.join(here, "none.lbl")]:
        mon.eq(scrape.cached_exists(path), path in contents, "exists")
    mon.eq(scrape.cached_exists(here), True, "existence of a folder")
    mon.sig("patterns", len(files), len(wanted), extra and len(extra),
            getattr(loader, "__name__", None))


def w_bulk(mon, rng):
    items = [gen.text(rng) for _ in range(gen.size(rng, range(21)))]
    out = {}
    calls = []

    def scraper(item):
        calls.append(item)
        return out.setdefault(len(calls), {"n": len(calls)})
    got = scrape.bulk_scrape_metadata(rng.choice([list, tuple, iter])(items),
                                      scraper)
    mon.check(calls == items, "files given to the scraper")
    mon.check(len(got) == len(items) and all(
        g is out[i + 1] for i, g in enumerate(got)), "results in order")
    mon.ev("bulk_items", len(items))


def w_subframe(mon, rng):
    numbers = [rng.choice([0, 1, 7, 1200, 1648, rng.randint(0, 10**6)])
               for _ in range(rng.choice([1, 4, 4, 4, 7]))]
    names = ["FIRST_LINE", "SAMPLE", "LINES", "X"]
    text = rng.choice(["", "LINES = 12\r\nGROUP = IMAGE\n", "END 5\n"])
    text += "SUBFRAME" + rng.choice(["", "_PARMS\r\n", " \n"])
    spelled = []
    for n in numbers:
        pad = "0" * rng.choice([0, 0, 0, 2])
        text += f"  {rng.choice(names)} = {pad}{n}{rng.choice(['', ' <p>'])}\n"
    text += rng.choice(["END_GROUP", "END"]) + rng.choice(
        ["", "\n", " = SUBFRAME\n Z = 5\nEND 6"])
    del spelled
    got = scrape.scrape_subframe(text)
    mon.eq(got, tuple(numbers), "subframe", text=text)
    mon.ev("subframes")
    mon.sig("subframe", tuple(numbers))


CHECK = Check(
    "C25",
    [
        Workload(w_scraper, 12000, 120000,
                 {"literals": 3000, "plain_texts": 3000, "no_match": 3000}),
        Workload(w_hostile, 12000, 120000, {"hostile_texts": 1000}),
        Workload(w_files, 10000, 80000,
                 {"heads": 2000, "texts": 2000, "trimmed": 500,
                  "whole_heads": 500, "unmarked": 100}),
        Workload(w_patterns, 5000, 40000,
                 {"fields": 2000, "cached_scrapes": 2000,
                  "supplemented": 500}),
        Workload(w_bulk, 300, 5000, {"bulk_items": 1000}),
        Workload(w_subframe, 500, 10000, {"subframes": 300}),
    ],
    rule="a case is one generated label or file, scraped, trimmed and headed, "
         "with results compared with what was written into it; distinct = "
         "distinct (sizes, keys, limits, outcome)",
    assumptions=["the first group of a pattern is what it captures",
                 "where the size limit cuts a character in two, the text is "
                "refused or returned in a form that tells every byte",
                 "files do not change between cached calls"],
)
