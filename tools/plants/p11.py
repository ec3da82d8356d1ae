ID = "sdpa_close_ignored"
PROPERTY = "C12"
NEEDS = "a full disk (or another error) that only shows when the .dat-s file is closed"
BREAKS = "an incomplete .dat-s file is left behind without an error"
EDITS = [("sdp/writer_utils.py", "        file_.write(line)\n    file_.close()", "        file_.write(line)\n    try:\n        file_.close()\n    except OSError:\n        pass")]
DEMO = '''from demo_help import *
import os
sdp = InflationSDP(problem(BELL, [2, 2], [1, 1], [1]))
sdp.generate_relaxation("npa1")
f = os.path.join(os.environ["DEMO_SCRATCH"], "p.dat-s")
os.symlink("/dev/full", f)
try:
    sdp.write_to_file(f)
except OSError:
    pass
else:
    expect(False, "no error although nothing could be written")
'''
