PROPERTY = "P28"
NEEDS = "samples whose costs are not already in ascending order"
BREAKS = "Utilities are listed in order of cost, under the numbers of other samples."
EDITS = [("r_u_sure/wrappers/demo_runner.py",
'combine_result.solution_info["sample_system_costs_unsorted"]',
'combine_result.solution_info["sample_system_costs"]')]
DEMO = '''
import contextlib, io
from r_u_sure.wrappers import demo_runner, uncertainty_regions_wrapper as u
r = demo_runner.DemoRunner(u.UncertaintyRegionsWrapper(use_numba=False))
result = r.combine("x = ", ["aaaa + bbbb\\n", "aaaa + bbbb\\n", "aaaa + c\\n", "aaaa + bbbb\\n"])
with contextlib.redirect_stdout(io.StringIO()) as out:
  r.show_utilities(result)
values = [float(l.split(": ")[1]) for l in out.getvalue().splitlines()]
assert values[0] == values[1] == values[3] > values[2], values
'''
