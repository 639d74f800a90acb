"""Single source for properties.jsonl and MANIFEST.json: python3 tools/meta.py rewrites both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note))


C = "src/libecalc/common/"
Y = "src/libecalc/presentation/yaml/"
D = "src/libecalc/domain/"
PR = "src/libecalc/process/"
I = ["inputs"]
IC = ["inputs", "configurations"]

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
            }) + "\n")
            assert len(p["title"]) <= 80, p["title"]
            for file in p["files"]:
                assert os.path.exists(os.path.join("/repo", file)), file
            for _, w in p["mechanism"]:
                assert os.path.exists(os.path.join("/repo", w.split(":")[0])), w
    manifest = {
        "version": 1,
        "setup_cmd": "bash run.sh --selftest",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"bash run.sh {p['id']} quick",
                "thorough_cmd": f"bash run.sh {p['id']} thorough",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"],
            }
            for p in P
        ],
        "not_applicable": [],
        "notes": "All checks import the code from /repo/src (nothing is built); generators and shrinking by the vendored Hypothesis; see DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(P), "properties")
