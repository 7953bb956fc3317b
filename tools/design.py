"""writes the tables of DESIGN.md (everything below the line MARK) from specs.py, the harnesses, bugs.py, known.py and catches.json"""
import ast
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from known import FINDINGS, FIXED  # noqa: E402
from specs import NOT_APPLICABLE, SPECS  # noqa: E402

MARK = "<!-- generated by tools/design.py -->"

# what the assertions are compared with, and why tests cannot reach it
ORACLE = {
    "P01": "the documented rules of validity, written independently as one formula (`hcommon.valid`): a constructor or setter succeeds iff the formula holds of the requested state, and the state is unchanged after a refusal. One arbitrary change from an arbitrary valid state is an inductive step, so histories of any length are covered",
    "P02": "`begin + duration == end` in exact integer microseconds on the absolute scale, after every setter and every `convert_end` from an arbitrary valid state",
    "P03": "floor/ceiling of begin and end to days, computed in integer arithmetic from the wall clock values",
    "P04": "a comparison of (begin, end, summary-free) keys on the absolute scale; antisymmetry, transitivity (three entries), totality and consistency of <, <=, >, >= are separate assertions",
    "P05": "half-open intervals on the integer line; every relation is compared with its definition by inequalities",
    "P06": "the multiset of events and the order of their effective begins; permutations of the input list are symbolic choices",
    "P07": "the set defined by inequalities on the integer line for every event; the result has to be exactly that set, in order",
    "P08": "field by field: the times named by the normalization change to the expected instant, all others are identical",
    "P09": "onsets of the observances expanded independently in integer arithmetic (day of the week, last/first n-th weekday of a month); the observance with the latest onset at or before the time decides",
    "P10": "the same instant in integer microseconds, offset zero, and the written line ends with Z",
    "P11": "`unescape(escape(s)) == s` and an independent character-by-character reference of both directions",
    "P12": "the list itself: what is read is what was written, item by item; a split at every unescaped comma",
    "P13": "a hand-written reading of the grammar of RFC 5545 3.1 (`reading` in p13.py), and the round trip of arbitrary lines",
    "P14": "joining the parts with a reference of unfolding gives the line, no part is wider than allowed in octets where documented, for a symbolic character at every position",
    "P15": "a stack machine over symbolic kinds and names of lines decides which sequences are well nested",
    "P16": "integer calendar arithmetic of the value and its digits; parse(serialize(v)) == v and serialize(parse(t)) == t for arbitrary digits; what is not a value is refused",
    "P17": "a sum in integers of the parts of the duration, and a reference grammar for arbitrary short texts",
    "P18": "sign and digits in integers; arbitrary short texts against a reference grammar",
    "P19": "begin/end/duration in integers",
    "P20": "integers of any digits, the two booleans, base64 by a bit-level model of the alphabet",
    "P21": "the offsets of the zone before and after, at an arbitrary instant, and the written definition after another round trip",
    "P22": "every attribute of the entry, and equality and text of a second round trip",
    "P23": "the unknown lines and components themselves, in their order, with their parameters",
    "P24": "every entry separately: attributes, times with their offsets, exactly the zones that are used",
    "P25": "every attribute of the alarm, its kind and action",
    "P26": "every attribute, the order of people, and the text of a second round trip",
    "P27": "what the constructor does with the same value: either both accept it with the same result or both refuse it, and nothing is changed",
    "P28": "a Python list of the same items, operation by operation, with arbitrary indices, slices and names",
    "P29": "attributes, text and type of the copy; the text of the other one after every change",
    "P30": "a stack of values",
    "P31": "the lines as they were generated, and `hcommon.valid`",
    "P32": "the transitions of the zone according to zoneinfo (a table generated at the start of the run), as a formula over an arbitrary second",
    "P33": "no other exception than ValueError; what is read is written, read again equal, and written identically",
    "P34": "equality of the two symbolic values of the attribute that differs (Python's equality of the values themselves)",
    "P35": "an independent numbering and unfolding of the generated lines",
    "P36": "the times themselves, printed with `str` of the standard types, have to occur after their labels",
}
COST = {}


def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("BOUNDS", "OUTSIDE"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def cases(path):
    out = []
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.FunctionDef) and any(isinstance(d, ast.Call) and getattr(d.func, "id", "") == "case" for d in node.decorator_list):
            doc = ast.get_docstring(node)
            out.append(f"`{node.name}`" + (f" ({' '.join(doc.split())})" if doc else ""))
    return out


def main():
    p = os.path.join(ROOT, "DESIGN.md")
    head = open(p).read().split(MARK)[0]
    out = [head.rstrip(), "", MARK, "", "## Properties", ""]
    for s in SPECS:
        pid = s["id"]
        out += [f"### {pid}: {s['title']}", ""]
        if pid in NOT_APPLICABLE:
            out += [f"Not applicable: {NOT_APPLICABLE[pid]}", ""]
            continue
        path = os.path.join(ROOT, "harness", pid.lower() + ".py")
        c = consts(path)
        out += [
            f"- *specified*: {s['statement']}",
            f"- *oracle*: {ORACLE[pid]}.",
            f"- *bounds*: {c['BOUNDS']}. *Outside*: {c['OUTSIDE']}.",
            f"- *why not by tests*: {s['why']}.",
            f"- *code*: {', '.join(w for _, w in s['mechanism'])}.",
            f"- *cases*: {'; '.join(cases(path))}.",
            "",
        ]
    out += ["## Known findings", ""]
    out += [f"- {f['property']} `{f['id']}`: {f['what']} (case `{f['case']}`, inputs `{json.dumps(f['inputs'])}`)" for f in FINDINGS]
    out += ["", "## Fixed defects (one commit each in /repo)", ""]
    out += [f"- {a} {b}: {c}" for a, b, c in FIXED]
    path = os.path.join(ROOT, "tools", "catches.json")
    if os.path.exists(path):
        got = json.load(open(path))
        out += ["", "## Planted bugs and the checks that catch them", "", "| bug | check | caught by the case |", "|---|---|---|"]
        for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
            pid = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))["property"]
            out.append(f"| {b} | {pid} | {got.get(b, '?')} |")
    open(p, "w").write("\n".join(out) + "\n")


main()
