"""Writes DESIGN.md from the tables beside this file."""
import json, pathlib, re
T = pathlib.Path(__file__).resolve().parent
R = T.parent
ns = {}
exec((T / "design_table.py").read_text(), ns)
props = [json.loads(l) for l in open(R / "properties.jsonl")]
out = [(T / "design_head.md").read_text()]
for p in props:
  spec, oracle, gen = ns["ROWS"][p["id"]]
  ev = R / "evidence" / f"{p['id']}.json"
  src = (R / "vp" / "checks" / f"{p['id'].lower()}.py").read_text()
  targets = re.findall(r'Target\(\s*"(\w+)"[\s\S]*?quick=(\d+)', src)
  counts = ", ".join(f"{n} {q}" for n, q in targets)
  out.append(f"### {p['id']} {p['title']}\n\n"
             f"- Compared: {spec}.\n- Oracle: {oracle}.\n- Generated: {gen}.\n"
             f"- Cases per quick run: {counts}.\n- Beyond the tests: {p['why_tests_cant']}\n")
out.append((T / "design_tail.md").read_text())
out.append("| bug | property | needs | caught by |\n| --- | --- | --- | --- |\n")
caught = json.loads((T / "caught.json").read_text()) if (T / "caught.json").exists() else {}
for f in sorted((T / "seeds").glob("*.py")):
  s = {}
  exec(f.read_text(), s)
  out.append(f"| {f.stem} | {s['PROPERTY']} | {s['NEEDS']} | {caught.get(f.stem, '?')} |\n")
extra = T / "design_mutants.md"
if extra.exists():
  out.append("\n" + extra.read_text())
(R / "DESIGN.md").write_text("\n".join(out[:len(props) + 2]) + "".join(out[len(props) + 2:]))
