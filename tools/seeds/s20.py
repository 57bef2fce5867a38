PROPERTY = "P25"
NEEDS = "a high precision together with a low sensitivity (the deletion cost in low-confidence regions becomes negative)"
BREAKS = "The cost is cut off at zero, so the break-even probability is no longer the configured precision."
EDITS = [("r_u_sure/wrappers/uncertainty_regions_wrapper.py",
"  low_conf_delete_cost = 1 - 2 * p * (1 - low_confidence_edit_sensitivity)\n",
"  low_conf_delete_cost = max(\n      0.0, 1 - 2 * p * (1 - low_confidence_edit_sensitivity)\n  )\n")]
DEMO = '''
from r_u_sure.wrappers import uncertainty_regions_wrapper as u
for p in (0.1, 0.5, 0.9):
  for s in (0.1, 0.5, 0.9):
    c = u.derive_uncertainty_region_costs(p, 4.0, s)
    for n in (1, 7):
      high = p * n * c.high_confidence_match_utility_per_char - (1 - p) * (n * c.high_confidence_delete_cost_per_char + c.high_confidence_start_editing_cost)
      low = p * n * c.low_confidence_match_utility_per_char - (1 - p) * (n * c.low_confidence_delete_cost_per_char + c.low_confidence_start_editing_cost) - c.low_confidence_region_cost
      assert abs(high - low) < 1e-9, (p, s, n, high, low)
'''
