"""Writes props/c17_schema.json, the fields of every record of the CWL schemas and their
types, from the schemas that cwltool carries (not from the generated parsers).  Run once:
/opt/venv/bin/python tools/cwlschema.py.  Extension classes, which are not part of the
CWL schemas, are written down by hand below."""

import json
import os

import cwltool.process as p

HERE = os.path.dirname(os.path.abspath(__file__))
ENUMS = {}


def name(s):
    return s.name.split(".")[-1]


def text(t):
    if t.type == "union":
        return [text(x) for x in t.schemas]
    if t.type == "array":
        return {"array": text(t.items)}
    if t.type == "enum":
        n = name(t)
        symbols = [x.split(".")[-1] for x in t.symbols]
        if n in ("Any", "Expression"):
            return n
        return {"enum": sorted(symbols)}
    if t.type == "record":
        return {"record": name(t)}
    return t.type


def flat(t):
    return t if isinstance(t, list) else [t]


EXPR = "Expression"
EXT = {
    "Secrets": {"class": [{"enum": ["Secrets"]}], "secrets": [{"array": ["string"]}]},
    "MPIRequirement": {"class": [{"enum": ["MPIRequirement"]}], "processes": ["int", EXPR]},
    "CUDARequirement": {"class": [{"enum": ["CUDARequirement"]}], "cudaComputeCapability": ["string", {"array": ["string"]}],
                        "cudaDeviceCountMax": ["null", "int", EXPR], "cudaDeviceCountMin": ["null", "int", EXPR], "cudaVersionMin": ["string"]},
    "ShmSize": {"class": [{"enum": ["ShmSize"]}], "shmSize": ["string"]},
}
PRIM = {"enum": ["boolean", "double", "float", "int", "long", "null", "string"]}
TYPES = [PRIM, {"record": "CWLRecordSchema"}, {"record": "CWLArraySchema"}]
EXT.update({
    "CWLArraySchema": {"type": [{"enum": ["array"]}], "items": TYPES + [{"array": TYPES}]},
    "CWLRecordSchema": {"type": [{"enum": ["record"]}], "fields": ["null", {"array": {"record": "CWLRecordField"}}]},
    "CWLRecordField": {"doc": ["null", "string", {"array": "string"}], "name": ["string"], "type": TYPES + [{"array": TYPES}]},
    "ProcessGenerator": {"class": [{"enum": ["ProcessGenerator"]}], "id": ["null", "string"], "label": ["null", "string"],
                         "doc": ["null", "string", {"array": "string"}], "inputs": [{"array": []}], "outputs": [{"array": []}],
                         "requirements": ["null", {"array": [{"record": "InlineJavascriptRequirement"}, {"record": "ShmSize"}]}],
                         "hints": ["null", {"array": "Any"}], "run": ["string", {"record": "CommandLineTool"}]},
})
EXT_V10 = dict(EXT, **{
    "LoadListingRequirement": {"class": [{"enum": ["LoadListingRequirement"]}], "loadListing": [{"enum": ["deep_listing", "no_listing", "shallow_listing"]}]},
    "InplaceUpdateRequirement": {"class": [{"enum": ["InplaceUpdateRequirement"]}], "inplaceUpdate": ["boolean"]},
    "TimeLimit": {"class": [{"enum": ["TimeLimit"]}], "timelimit": ["long", EXPR]},
    "WorkReuse": {"class": [{"enum": ["WorkReuse"]}], "enableReuse": ["boolean", EXPR]},
    "NetworkAccess": {"class": [{"enum": ["NetworkAccess"]}], "networkAccess": ["boolean", EXPR]},
})
EXT_V12 = dict(EXT, **{
    "LoopInput": {"id": ["null", "string"], "default": ["null", "Any"], "valueFrom": ["null", "string", EXPR],
                  "linkMerge": ["null", {"enum": ["merge_flattened", "merge_nested"]}],
                  "loopSource": ["null", "string", {"array": ["string"]}],
                  "pickValue": ["null", {"enum": ["all_non_null", "first_non_null", "the_only_non_null"]}]},
    "Loop": {"class": [{"enum": ["Loop"]}], "loop": [{"array": [{"record": "LoopInput"}]}], "loopWhen": [EXPR],
             "outputMethod": [{"enum": ["all", "last"]}]},
})

out = {}
for v, ext in (("v1.0", EXT_V10), ("v1.1", EXT), ("v1.2", EXT_V12)):
    _, names, _, _ = p.get_schema(v)
    out[v] = {}
    for k, s in names.names.items():
        if s.type == "record":
            fields = {}
            for f in s.fields:
                t = flat(text(f.type))
                if f.name == "class" and t == ["string"]:
                    t = [{"enum": [name(s)]}]
                elif f.name == "cwlVersion":
                    t = ["null", {"enum": [v]}]
                fields[f.name] = [x for i, x in enumerate(t) if x not in t[:i]]
            out[v][k.split(".")[-1]] = fields
    if v == "v1.0":
        for n, fields in out[v].items():
            if n.endswith(("RecordSchema", "EnumSchema")) and n != "OutputRecordSchema":
                fields.setdefault("name", ["null", "string"])
    out[v].update(ext)
    out[v]["ProcessGenerator"] = dict(ext["ProcessGenerator"], cwlVersion=["null", {"enum": [v]}])
    if v == "v1.0":
        out[v]["ProcessGenerator"]["doc"] = ["null", "string"]
    if v == "v1.2":
        out[v]["ProcessGenerator"]["intent"] = ["null", {"array": "string"}]
with open(os.path.join(HERE, "..", "props", "c17_schema.json"), "w") as h:
    json.dump(out, h, indent=1, sort_keys=True)
    h.write("\n")
