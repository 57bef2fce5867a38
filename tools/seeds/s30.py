PROPERTY = "P30"
NEEDS = "two combinations with one task object, and a look at the first result after the second"
BREAKS = "All results share one context record: a result shown later appears after the wrong context."
EDITS = [("r_u_sure/wrappers/edit_distance_wrapper_base.py",
'''    context_info = {
        "context_prefix_contents": sequence_node_helpers.render_text_contents(
            context_and_prototype
        )[:prediction_location]
    }
    return packed, context_info
''',
'''    self._context_info["context_prefix_contents"] = (
        sequence_node_helpers.render_text_contents(context_and_prototype)[
            :prediction_location
        ]
    )
    return packed, self._context_info
'''),
("r_u_sure/wrappers/edit_distance_wrapper_base.py",
'''    self._use_numba = use_numba
    if use_numba:
''',
'''    self._use_numba = use_numba
    self._context_info = {}
    if use_numba:
''')]
DEMO = '''
from IPython import display
from r_u_sure.wrappers import demo_runner, uncertainty_regions_wrapper as u
run = demo_runner.DemoRunner(u.UncertaintyRegionsWrapper(use_numba=False))

def look(result):
  del display.SHOWN[:]
  run.show_suggestion(result)
  return display.SHOWN[0].data

first = run.combine("alpha = 1\\n", ["f(x)", "f(y)"])
before = look(first)
run.combine("beta = 2\\n", ["g(x)", "g(y)"])
assert look(first) == before, (before, look(first))
'''
