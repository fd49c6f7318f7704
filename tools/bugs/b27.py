ID, PROPERTY = "C12-wrong-sparse-removed", "C12"
NEEDS = "demonstrations whose clustering leaves at least two sparsely populated clusters, so that two of them are removed in one fit"
BREAKS = "the second sparse cluster is looked up by its old number after the first one was removed: another one is removed instead, or the fit aborts"
EDITS = [("kmeans_learner/kmeans_motion_learner.py", """                    self.kmeans.cluster_centers_, obj=ii - n_delta_label, axis=0""", """                    self.kmeans.cluster_centers_, obj=ii, axis=0""")]
DEMO = '''
import numpy as np
from types import SimpleNamespace
from nonlinear_avoidance.kmeans_learner.kmeans_motion_learner import KMeansMotionLearner
class K:
    n_clusters = 5
    cluster_centers_ = np.array([[0., 0], [1, 0], [2, 0], [3, 0], [4, 0]])
    labels_ = np.array([0] * 30 + [1] + [2] * 30 + [3] * 30 + [4])
    def predict(self, x):
        return np.argmin(((np.asarray(x)[:, None, :] - self.cluster_centers_[None]) ** 2).sum(-1), axis=1)
l = KMeansMotionLearner.__new__(KMeansMotionLearner)
l.kmeans = K()
l.data = SimpleNamespace(n_samples=92, position=np.vstack([K.cluster_centers_[l.kmeans.labels_]]))
l._fit_remove_sparse_clusters()
assert l.kmeans.cluster_centers_[:, 0].tolist() == [0, 2, 3], l.kmeans.cluster_centers_
'''
