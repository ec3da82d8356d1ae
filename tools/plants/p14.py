ID = "columns_marked_early"
PROPERTY = "C14"
NEEDS = "a second relaxation with other columns, interrupted while the columns are built, then repeated"
BREAKS = "a repeated generate_relaxation skips building the columns, believing that the interrupted attempt built them"
EDITS = [("sdp/InflationSDP.py", "        self.build_columns(column_specification)\n        collect()", "        if str(column_specification) != getattr(self, \"_columns_for\", \"\"):\n            self._columns_for = str(column_specification)\n            self.build_columns(column_specification)\n        collect()")]
DEMO = '''from demo_help import *
p = problem(BELL, [2, 2], [2, 2], [1])
good = InflationSDP(p)
good.generate_relaxation("npa2")
sdp = InflationSDP(p)
sdp.generate_relaxation("npa1")


def interrupted(*a):
    sdp.build_columns = build
    raise KeyboardInterrupt
build = sdp.build_columns
sdp.build_columns = interrupted
try:
    sdp.generate_relaxation("npa2")
except KeyboardInterrupt:
    pass
sdp.generate_relaxation("npa2")
expect(sdp.n_columns == good.n_columns, f"{sdp.n_columns} columns instead of {good.n_columns}")
'''
