PROPERTY = "P30"
NEEDS = "a demo runner whose earlier question needed more than forty solver steps"
BREAKS = "After a long optimisation, all later ones of the same runner stop early."
EDITS = [("r_u_sure/wrappers/demo_runner.py",
'''        system_data=sample_system.data, soft_timeout=10.0
    )
''',
'''        system_data=sample_system.data,
        soft_timeout=10.0,
        tolerance=self._tolerance,
    )
    if opt_results.objective_at_step.shape[0] > 40:
      self._tolerance = 1.0
'''),
("r_u_sure/wrappers/demo_runner.py",
'''    self.parser_helper = parser_tools.ParserHelper(language=language)
''',
'''    self.parser_helper = parser_tools.ParserHelper(language=language)
    self._tolerance = 1e-5
''')]
DEMO = '''
from r_u_sure.wrappers import demo_runner, uncertainty_regions_wrapper as u
wrapper = u.UncertaintyRegionsWrapper(use_numba=False)
asked = ["f(x)\\nreturn y", "g(x)\\nreturn yy", "f(zz)\\nreturn y"]
run = demo_runner.DemoRunner(wrapper)
first = run.combine("x = 1\\n", asked)
again = run.combine("x = 1\\n", asked)
assert len(first.opt_results.objective_at_step) > 40
assert list(first.opt_results.objective_at_step) == list(again.opt_results.objective_at_step)
'''
