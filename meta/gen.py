"""Writes properties.jsonl and MANIFEST.json from meta/properties.py."""
import json
import os

from . import properties as source

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    checks = []
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as out:
        for item in source.PROPERTIES:
            item = dict(item)
            technique, note = item.pop("technique"), item.pop("note")
            assert len(item["title"]) <= 80, item["id"]
            out.write(json.dumps(item) + "\n")
            if not os.path.exists(os.path.join(ROOT, "checks", item["id"].lower() + ".py")):
                print("no check:", item["id"])
                continue
            import importlib
            module = importlib.import_module("checks." + item["id"].lower())
            checks.append({
                "property": item["id"],
                "quick_cmd": f"python3-vt -m sym.main {item['id']}",
                "thorough_cmd": f"python3-vt -m sym.main {item['id']} --tier thorough",
                "technique": technique,
                "level": "model_checking",
                "level_note": (note + " " if note else "") + "Bounds: " + module.BOUNDS + ". Assumptions: " +
                              "; ".join(module.ASSUMPTIONS) + ".",
            })
    manifest = {"version": 1, "setup_cmd": "python3-vt -m sym.setup", "checks": checks,
                "not_applicable": getattr(source, "NOT_APPLICABLE", [])}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as out:
        json.dump(manifest, out, indent=1)
        out.write("\n")


if __name__ == "__main__":
    main()
