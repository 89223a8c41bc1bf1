#!/usr/bin/env python3
"""Writes props.json: what each check rests on (run after editing, then manifest.py)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
BASE = ["spec::*", "spec_in::*", "spec_out::*", "spec_lib::*", "serde_spec::*", "shim::*", "lemmas::*", "depth::*", "tags::*",
        "lims::*", "total::*", "closed::*", "valid_bq::*", "resolving::*", "root::*", "snaking::*", "printing::*", "canonical::*", "reading::*", "keywords::*"]
IN = ["jsonschema::*", "ast::*", "into_ast"]
BQ = ["bigquery::*", "convert_bigquery", "Context::*"]
AV = ["avro::*", "convert_avro"]
COMMON = []
props = {}


def prop(id, code, mods, theorems, level, note, uncovered=(), assumptions=(), technique=None, base=None, tool=False, exact=False):
    props[id] = {"level": level, "fns": code + (BASE if base is None else base) + mods, "alarm": code + (["canonical::*", "keywords::*"] if exact else []), "open": [], "theorems": theorems,
                 "uncovered": list(uncovered), "assumptions": list(assumptions), "note": note}
    if tool:
        props[id]["tool"] = True
    if technique:
        props[id]["technique"] = technique


exec(open(os.path.join(here, "props.in.py")).read())
json.dump(props, open(os.path.join(here, "props.json"), "w"), indent=1)
