ID, PROPERTY = "C12-uncovered-sample", "C12"
NEEDS = "demonstrations with a sample further from every centre than the centres are from each other, e.g. few clusters or a stray sample"
BREAKS = "the regions are sized by the distance between the centres only and no longer cover every demonstrated sample"
EDITS = [("kmeans_learner/kmeans_motion_learner.py", "self.region_radius_ = max(max_dist_data, max_dist_clusters)", "self.region_radius_ = max_dist_clusters or max_dist_data")]
DEMO = '''
import numpy as np
from vartools.handwritting_handler import MotionDataHandler
from nonlinear_avoidance.kmeans_learner.kmeans_motion_learner import KMeansMotionLearner
worst = 0
for seed in range(8):
    for n in (2, 3, 4):
        rng = np.random.default_rng(seed)
        s = np.linspace(0, 1, 60) ** 3
        a = 2.5 * s
        pos = np.cumsum(np.stack([np.cos(a), np.sin(a)], 1), 0) * .1
        pos[0] -= [1.5, 0]
        vel = np.stack([np.cos(a), np.sin(a)], 1)
        data = MotionDataHandler(position=pos, velocity=vel, attractor=pos[-1])
        data.sequence_value = np.linspace(0, 1, 60)
        np.random.seed(seed)
        learner = KMeansMotionLearner(data, n_clusters=n)
        c = learner.kmeans.cluster_centers_
        worst = max(worst, np.max(np.min(np.linalg.norm(pos[:, None] - c[None], axis=2), axis=1)) / learner.region_radius_)
assert worst <= 1, f"a demonstrated sample lies outside of every region ({worst:.2f})"
'''
