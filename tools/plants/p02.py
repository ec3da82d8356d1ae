ID = "stale_semiknown"
PROPERTY = "C05"
NEEDS = "linearised polynomial constraints imposed once, then values set (or cleared) without them"
BREAKS = "the linearised constraints of the earlier values stay in the program"
EDITS = [("lp/InflationLP.py", """        self.known_moments     = dict()
        self.semiknown_moments = dict()
        self.known_moments[self.One] = 1.
""", """        self.known_moments     = dict()
        if not hasattr(self, "semiknown_moments"):
            self.semiknown_moments = dict()
        self.known_moments[self.One] = 1.
"""), ("lp/InflationLP.py", """        self._reset_solution()

        self.use_lpi_constraints = use_lpi_constraints
""", """        self._reset_solution()

        self.use_lpi_constraints = use_lpi_constraints
        if use_lpi_constraints:
            self.semiknown_moments = dict()
""")]
DEMO = '''from demo_help import *
lp = InflationLP(problem(TRI, (2, 2, 2), (1, 1, 1), (2, 2, 2)))
lp.set_distribution(np.ones((2, 2, 2, 1, 1, 1)) / 8, use_lpi_constraints=True)
lp.set_distribution(np.ones((2, 2, 2, 1, 1, 1)) / 8)
expect(len(lp.semiknown_moments) == 0, "linearised constraints of the earlier values are still there")
'''
