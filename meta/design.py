"""Writes DESIGN.md from meta/design_head.md, meta/properties.py, the check modules and meta/design_tail.md."""
import importlib
import json
import os
import textwrap

from . import properties as source

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def wrap(text, indent=""):
    return textwrap.fill(" ".join(text.split()), 118, initial_indent=indent, subsequent_indent="  " if indent else "")


def read(name):
    with open(os.path.join(ROOT, "meta", name), encoding="utf-8") as file:
        return file.read()


def main():
    out = [read("design_head.md").rstrip(), "", "## Properties", ""]
    for item in source.PROPERTIES:
        module = importlib.import_module("checks." + item["id"].lower())
        how = source.HOW.get(item["id"], "")
        out += [f"### {item['id']} {item['title']}", "", wrap(item["statement"]), ""]
        out += [wrap("* Decided by: " + (how or " ".join((module.__doc__ or "").split())), " ").strip()]
        out += [wrap("* Quantified over: " + item["quantifier"]["text"] + ".", " ").strip(),
                wrap("* Bounds: " + module.BOUNDS + ".", " ").strip(),
                wrap("* Assumptions: " + "; ".join(module.ASSUMPTIONS) + ".", " ").strip(),
                wrap("* Why tests cannot settle it: " + item["why_tests_cant"], " ").strip(),
                wrap("* Code: " + ", ".join(item["anchors"]["files"]) + ".", " ").strip(), ""]
    for item in getattr(source, "NOT_APPLICABLE", []):
        out += [wrap(f"* {item['property']}: {item['reason']}", " ").strip(), ""]
    tail = read("design_tail.md")
    with open(os.path.join(ROOT, "known_findings.json"), encoding="utf-8") as file:
        known = json.load(file)
    tail = tail.replace("@FIXED@", "\n".join(wrap("* " + text[len("fixed: "):], " ").strip() for text in known["fixed"]))
    tail = tail.replace("@FINDINGS@", "\n".join(wrap(f"* {f['id']} ({f['property']}): {f['title']}", " ").strip()
                                                for f in known["findings"]))
    rows = []
    caught = json.loads(read("caught.json"))
    for folder in ("seeded", "template_bugs"):
        for bug in sorted(os.listdir(os.path.join(ROOT, folder))):
            with open(os.path.join(ROOT, folder, bug, "meta.json"), encoding="utf-8") as file:
                meta = json.load(file)
            rows.append(wrap(f"* {folder}/{bug} ({meta['property']}; caught by {caught.get(bug, meta['property'])}): "
                             f"{meta['what_it_breaks']}", " ").strip())
    tail = tail.replace("@CAUGHT@", "\n".join(rows))
    with open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8") as file:
        file.write("\n".join(out) + "\n" + tail)


if __name__ == "__main__":
    main()
