import sys,unittest,os
sys.path.insert(0,'/verif'); os.environ['VERIF_REPO']='/repo'
from sim import warm; warm.load()
sys.path.insert(0,'/repo')
os.chdir('/tmp')
names=sys.argv[1:] or ['test.test_pipeline','test.test_solvers','test.test_optimize','test.test_writers']
s=unittest.defaultTestLoader.loadTestsFromNames(names)
unittest.TextTestRunner(verbosity=1).run(s)
