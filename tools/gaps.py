#!/usr/bin/env python3
"""List the functions of cwl_utils that no check executed (from evidence/)."""
import ast, glob, json, os
root = "/repo/src/cwl_utils"
seen = set()
for f in glob.glob(os.path.join(os.path.dirname(__file__), "..", "evidence", "*.json")):
    seen |= set(json.load(open(f))["coverage"]["functions_encoded"])
for path in sorted(glob.glob(root + "/**/*.py", recursive=True)):
    rel = os.path.relpath(path, root)[:-3].replace("/", ".")
    if rel.startswith(("tests", "testdata")) or rel in ("parser.cwl_v1_0", "parser.cwl_v1_1", "parser.cwl_v1_2"):
        continue
    out = []
    def walk(node, pre):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = pre + n.name
                if not any(s.startswith("cwl_utils.") and s.split(":")[-1].split(" ")[0].endswith(q) for s in seen):
                    out.append(f"{q}({n.end_lineno - n.lineno + 1})")
                walk(n, pre + n.name + ".")
            elif isinstance(n, ast.ClassDef):
                walk(n, pre + n.name + ".")
    walk(ast.parse(open(path).read()), "")
    if out:
        print(rel, ":", ", ".join(out))
