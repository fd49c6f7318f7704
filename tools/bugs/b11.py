ID, PROPERTY = "C10-joint-fraction", "C10"
NEEDS = "several experiments summarised together where a run converges in one and not in another"
BREAKS = "the converged fraction of an experiment counts only the runs that converged in every experiment"
EDITS = [("comparison/evaluation_path_following.py", '''self.frac_converged = sum(self.df[" converged"] > 0) / self.n_runs
        df = self.df[converged]''', '''df = self.df[converged]
        self.frac_converged = sum(df[" converged"] > 0) / self.n_runs''')]
DEMO = '''
import os
from pathlib import Path
from nonlinear_avoidance.comparison.evaluation_path_following import TrajectoryEvaluator, get_converged
d = Path(os.environ["SCRATCH"])
head = "distance, free_fraction, gammas, converged, dist_to_path\\n"
import pandas as pd
cols = [" distance", " free_fraction", " gammas", " converged", " dist_to_path", " stuck"]
def write(n, flags):
    pd.DataFrame([{c: 1. for c in cols} | {" converged": float(f)} for f in flags]).to_csv(d / n, index=False)
write("a.csv", [1, 1, 1, 0]); write("b.csv", [1, 0, 0, 1])
ev = [TrajectoryEvaluator("a.csv"), TrajectoryEvaluator("b.csv")]
for e in ev:
    e.root_path, e.data_path = d, Path(".")
both = get_converged(ev)
for e in ev:
    e.run(both)
assert ev[0].frac_converged == .75 and ev[1].frac_converged == .5, [e.frac_converged for e in ev]
'''
