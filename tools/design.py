"""write DESIGN.md: tools/design_text.md and tables of what the checks declare"""
import ast
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


def literal(node):
    try:
        return ast.literal_eval(node)
    except ValueError:
        return ast.unparse(node)


def workloads(path):
    tree = ast.parse(path.read_text())
    docs = {n.name: (ast.get_docstring(n) or "").split("\n")[0]
            for n in tree.body if isinstance(n, ast.FunctionDef)}
    for node in ast.walk(tree):
        if isinstance(node, ast.Call) and getattr(
                node.func, "id", "") == "Workload":
            name, *rest = node.args
            name = name.id
            rest = [literal(r) for r in rest]
            needs = rest[2] if len(rest) > 2 else {}
            for kw in node.keywords:
                if kw.arg == "needs":
                    needs = literal(kw.value)
            yield name[2:], docs.get(name, ""), rest[0], rest[1], needs


def main():
    out = [(ROOT / "tools/design_text.md").read_text().rstrip(), "",
           "## Workloads", "",
           "Cases in the quick and thorough tier, and the events the monitors "
           "must have seen for a verdict (else exit 2).", "",
           "| property | workload | quick | thorough | needs |",
           "|---|---|---|---|---|"]
    for path in sorted((ROOT / "checks").glob("c[0-9]*.py")):
        for name, doc, quick, thorough, needs in workloads(path):
            said = ", ".join(f"{k} ≥ {v}" for k, v in needs.items()) \
                if isinstance(needs, dict) else str(needs)
            out.append(f"| {path.name[:3].upper()} | {name}"
                       f"{': ' + doc if doc else ''} | {quick} | {thorough} "
                       f"| {said} |")
    out += ["", "## Planted changes", "",
            "All of them are reported by the quick check of their property.",
            "", "| change | property | needs | breaks |", "|---|---|---|---|"]
    for meta in sorted((ROOT / "seeded").glob("*/meta.json")):
        m = json.loads(meta.read_text())
        out.append("| {} | {} | {} | {} |".format(
            meta.parent.name, m["property"],
            m["needs"].replace("|", "\\|").replace("\n", " "),
            m["what_it_breaks"].replace("|", "\\|").replace("\n", " ")))
    (ROOT / "DESIGN.md").write_text("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
