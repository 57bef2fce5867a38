"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""

import json
import os
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
R = "r_u_sure/"
SP = R + "parsing/pseudo_parser/stack_parser.py"
UT = R + "parsing/pseudo_parser/utilities.py"
SEQ = R + "parsing/sequence_from_pseudo_parse.py"
SUB = R + "parsing/subtokenizer.py"
PT = R + "wrappers/parser_tools.py"
TR = R + "tree_structure/transforms.py"
SN = R + "tree_structure/sequence_nodes.py"
SNH = R + "tree_structure/sequence_node_helpers.py"
PSN = R + "tree_structure/packed_sequence_nodes.py"
TPA = R + "tree_structure/token_prob_align.py"
GSD = R + "decision_diagrams/gated_state_dag.py"
PD = R + "decision_diagrams/packed_dags.py"
DS = R + "decision_diagrams/consistent_path_dual_solver.py"
ED = R + "edit_distance_utility/edit_dags.py"
CD = R + "edit_distance_utility/constraint_dags.py"
PS = R + "edit_distance_utility/part_selection_dags.py"
RD = R + "edit_distance_utility/region_decisions.py"
EW = R + "wrappers/edit_distance_wrapper_base.py"
UW = R + "wrappers/uncertainty_regions_wrapper.py"
PW = R + "wrappers/prefix_truncation_wrapper.py"
CW = R + "wrappers/call_sequence_wrapper.py"
WB = R + "wrappers/wrapper_base.py"
DR = R + "wrappers/demo_runner.py"
NH = R + "numba_helpers/"
RND = R + "rendering/rendering.py"
SVG = R + "rendering/svg_renderer.py"
DAN = R + "rendering/dag_annotator.py"
SDA = R + "rendering/simple_dag_annotator.py"

PROPS = []
NOT_APPLICABLE = []


def prop(id_, title, statement, over, text, why, files, mechanism, technique, note,
         observe=(), hook=None):
  PROPS.append(dict(
      id=id_, title=title, statement=statement,
      quantifier=dict(over=list(over), text=text), why_tests_cant=why,
      anchors=dict(files=list(files),
                   mechanism=[dict(name=n, where=w) for n, w in mechanism],
                   observe_at=list(observe), hook_needed=hook),
      technique=technique, note=note))


exec((ROOT / "tools" / "props_table.py").read_text())


def main():
  with open(ROOT / "properties.jsonl", "w") as f:
    for p in PROPS:
      p = {k: v for k, v in p.items() if k not in ("technique", "note")}
      assert len(p["title"]) <= 80, p["title"]
      for name in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + name), name
      f.write(json.dumps(p) + "\n")
  checks = []
  na = {n["property"] for n in NOT_APPLICABLE}
  for p in PROPS:
    if p["id"] in na:
      continue
    checks.append(dict(
        property=p["id"],
        quick_cmd=f"python3 /verif/run.py {p['id']} --tier quick",
        thorough_cmd=f"python3 /verif/run.py {p['id']} --tier thorough",
        technique=p["technique"], level="exploration", level_note=p["note"]))
  manifest = dict(version=1, setup_cmd="true", checks=checks, not_applicable=NOT_APPLICABLE)
  with open(ROOT / "MANIFEST.json", "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")


main()
