PROPERTY = "P30"
NEEDS = "one demo runner, and the same sample after two contexts that make it parse differently"
BREAKS = "Samples are remembered without their context, so a later combination compares with stale targets."
EDITS = [("r_u_sure/wrappers/demo_runner.py",
'''      sample_as_nodes = self.parser_helper.parse_to_nodes(combined_sample)
      packed_targets.append(
          self.wrapper.process_target(
              context_and_target=sample_as_nodes,
              prediction_location=cursor_position,
          )
      )
''',
'''      sample = combined_sample[cursor_position:]
      if sample not in self._packed_targets:
        sample_as_nodes = self.parser_helper.parse_to_nodes(combined_sample)
        self._packed_targets[sample] = self.wrapper.process_target(
            context_and_target=sample_as_nodes,
            prediction_location=cursor_position,
        )
      packed_targets.append(self._packed_targets[sample])
'''),
("r_u_sure/wrappers/demo_runner.py",
'''    self.parser_helper = parser_tools.ParserHelper(language=language)
''',
'''    self.parser_helper = parser_tools.ParserHelper(language=language)
    self._packed_targets = {}
''')]
DEMO = '''
from r_u_sure.wrappers import demo_runner, uncertainty_regions_wrapper as u
wrapper = u.UncertaintyRegionsWrapper(use_numba=False)
samples = ["b(c)'", "d'"]
run = demo_runner.DemoRunner(wrapper)
run.combine("x = 1\\n", samples)
after = run.combine("x = '", samples)
alone = demo_runner.DemoRunner(wrapper).combine("x = '", samples)
assert after.packed_targets == alone.packed_targets, (after.packed_targets, alone.packed_targets)
'''
