"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, pathlib
P = []
NA = "nonlinear_avoidance/"
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=[NA + f for f in files],
        mechanism=[dict(name=n, where=NA + w) for n, w in mechanism],
        state=[dict(name=n, meaning=m, where=NA + w) for n, m, w in (state or [])],
        observe_at=observe or [], hook_needed=hook)))

prop("C01", "A tracked articulated body stays assembled under any message history",
 "After every update of a tracked articulated body, whatever tracking messages were delivered, lost, duplicated, reordered, delayed or addressed to markers nobody registered, each part's joint point coincides with the joint point of the part it hangs on, every pose is finite with a proper rotation, and a measured root stands upright at its fixed ground height. The distance measure of a location to the body is the least over all its parts. No message batch, however incomplete or foreign, makes an update abort.",
 ["histories", "fault_sequences", "configurations"],
 "all body trees (tracked and untracked parts, any attachment points), all sequences of message batches a lossy tracking network can deliver, with and without a tracked robot frame",
 "test_multi_body_human replays one hand-written batch per test; loss, duplication, reordering, foreign markers and long histories are never generated",
 ["multi_body_human.py", "rigid_body.py"],
 [("tree walk that applies measurements and re-attaches children", "multi_body_human.py:update_using_optitrack"),
  ("joint alignment", "multi_body_human.py:align_position_with_parent"),
  ("least distance over parts", "multi_body_human.py:get_gamma")],
 [("part tree", "parent/child relation with both joint points", "multi_body_human.py:_graph"),
  ("filters", "per tracked part position and orientation estimate", "multi_body_human.py:create_filters")],
 ["component poses after update()", "get_gamma"])

prop("C02", "Each tracked part follows its own newest measurement",
 "Measurements are attributed by marker identity alone: the order of bodies inside a batch and bodies nobody registered change nothing. A measured root takes the filtered measured heading and horizontal position as seen from the robot's own latest measured pose, a measured limb points from its joint towards its filtered measured centre, a tracked part missing from a batch keeps its orientation, and an untracked part takes its parent's. Once messages about a motionless scene arrive uninterrupted, the body settles on the broadcast scene within a bounded number of updates.",
 ["histories", "fault_sequences"],
 "all message histories and network fault sequences, all true body motions, robot motions and body trees",
 "existing tests feed one noise-free batch to a fixed tree and compare single numbers; attribution, holding and convergence after faults are about sequences",
 ["multi_body_human.py", "rigid_body.py"],
 [("marker-to-part lookup and per-part filtering", "multi_body_human.py:update_using_optitrack"),
  ("limb direction from measured centre", "multi_body_human.py:update_orientation_based_on_position"),
  ("robot frame change", "multi_body_human.py:update_using_optitrack")],
 [("robot pose", "latest measured robot frame", "multi_body_human.py:robot")],
 ["component poses after update()", "robot pose"])

prop("C03", "A compound obstacle moves, turns and grows as one rigid body",
 "After any history of pose updates, size changes and component additions, every component of a compound obstacle sits at the group pose composed with its own placement in the group, and its distance measure for a location is the least over the (not excluded) components whichever reference frame the location is given in. A container of such obstacles reports the least over all of them and calls a location free exactly when it is outside every one. Handing out the group pose never exposes internal state, and an assigned velocity reads back unchanged.",
 ["histories", "fault_sequences"],
 "all interleavings of group pose updates (including large jumps and repeated identical updates), growth steps of any length, component additions with and without explicit joint, velocity assignments, rejected additions, in two and three dimensions",
 "tests build one arch or human, move it once and inspect a few gammas; histories of mixed updates and the local-frame queries are not exercised",
 ["multi_obstacle.py", "multi_obstacle_container.py", "arch_obstacle.py", "geometry.py"],
 [("pose propagation", "multi_obstacle.py:update_pose"), ("growth", "multi_obstacle.py:update_deformation"),
  ("component registration", "multi_obstacle.py:add_component"), ("joint search", "geometry.py:get_intersection_of_obstacles")],
 [("local placements", "component pose in the group frame", "multi_obstacle.py:_local_poses")],
 ["component poses", "get_gamma", "twist / linear_velocity"])

prop("C04", "A robot following the commands does not run into the obstacles it is shown",
 "A robot that starts in free space and executes the commanded velocities at a small enough control period never enters an obstacle, whatever obstacles it meets and from wherever localisation corrections, pushes and skipped control cycles put it in free space. In front of an obstacle surface the commanded velocity relative to that surface's own motion never points into the obstacle by more than a vanishing amount as the surface is approached.",
 ["histories", "fault_sequences", "configurations"],
 "all obstacle arrangements with room between them (single and compound, static, translating and turning, two and three dimensions), all start positions, all control-period jitter, localisation jumps and pushes within free space, straight, circling and wavy nominal motions, for all three avoidance algorithms",
 "tests evaluate the avoiders at single positions around one fixed obstacle; none closes the loop, and none moves the robot off its path",
 ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py", "nonlinear_rotation_avoider.py", "vector_rotation.py"],
 [("tangent rotation away from the surface", "multi_obstacle_avoider.py:evaluate_sequence"),
  ("rotational avoidance", "avoidance/rotational_avoider.py:avoid"),
  ("obstacle-relative velocity", "multi_obstacle_avoider.py:compute_multiobstacle_relative_velocity")],
 observe=["avoider.evaluate(position) / avoid(...)", "obstacle distance measure along the executed path"])

prop("C05", "Every command is well defined and stays within the nominal speed",
 "At every robot position outside the obstacles the commanded velocity exists, is finite and, up to the obstacles' own motion, is no faster than the nominal motion there; evaluation never aborts, however symmetric or extreme the configuration. Its direction is only ever averaged with weights that add up to one. It vanishes at the goal, it is exactly the nominal motion when there are no obstacles, and it approaches the nominal motion far from all obstacles.",
 ["histories", "fault_sequences", "configurations"],
 "all control histories including teleports onto symmetry lines, reference points, the goal and far away, and all obstacle sets including the empty one",
 "tests sample a handful of generic positions; the degenerate directions only appear on measure-zero positions that jumps and symmetric scenes reach",
 ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py", "vector_rotation.py"],
 [("degenerate-direction handling", "vector_rotation.py:from_directions"), ("influence weights", "multi_obstacle_avoider.py"),
  ("weights over obstacles", "avoidance/rotational_avoider.py:avoid")],
 observe=["avoider.evaluate(position)"])

prop("C06", "The robot reaches its goal once disturbances stop",
 "In a scene of separated obstacles that leaves the goal free, a robot following the commands comes within a small distance of the goal in bounded time after the last disturbance (push, localisation jump, skipped cycle, obstacle motion), from all but the exactly symmetric starting points. Along the way it never comes to rest away from the goal.",
 ["histories", "fault_sequences", "configurations"],
 "all scenes of well separated convex and star-like compound obstacles, straight and wavy nominal motions, in two and three dimensions, all disturbance sequences that end (obstacles stand still afterwards)",
 "progress is a statement about whole trajectories; the tests look at single commands",
 ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py"],
 [("convergence direction around obstacles", "multi_obstacle_avoider.py"), ("rotation around obstacles", "avoidance/rotational_avoider.py:avoid")],
 observe=["executed trajectory"])

prop("C07", "A command depends on the present situation only",
 "The commanded velocity is the same whatever was asked before, whichever queries failed half-way, however the obstacles were registered in order, and in whichever rigidly shifted map frame the whole situation is described (turned along with it). Evaluating never alters the obstacles, the nominal motion or the caller's arrays.",
 ["histories", "schedules", "fault_sequences"],
 "all query histories of any number of callers on one controller instance, all appearances and disappearances of obstacles, all failures of an obstacle query in the middle of an evaluation, all registration orders and map frames",
 "tests create a fresh controller per assertion, so carried-over state cannot show; failures in mid-query are never injected",
 ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py", "vector_rotation.py", "rotation_container.py"],
 [("per-query rotation trees and weights", "multi_obstacle_avoider.py"), ("cached trees", "vector_rotation.py:VectorRotationTree"),
  ("per-obstacle local motion", "nonlinear_rotation_avoider.py:evaluate_weighted_dynamics")],
 observe=["avoider.evaluate(position)", "obstacle poses and nominal motion before and after"])

prop("C08", "Hierarchies stay consistent under every edit history",
 "In every parent/child registry, after any sequence of additions, re-parentings, removals and rejected edits, an element lists exactly those children that name it as parent, every element has at most one parent, a root has none, and an element lives in exactly one place. Walking from the roots visits every element once, parents first. A rejected edit leaves the registry as it was.",
 ["histories", "fault_sequences"],
 "all edit sequences, including edits that name unknown elements, on each of the repository's registries (value graph, element graph, articulated body, compound obstacle, ellipse compound)",
 "one test makes two additions; re-parenting, removal and failed edits are never combined",
 ["graph_handler.py", "multi_ellipse_obstacle.py", "multi_body_human.py", "multi_obstacle.py", "arch_obstacle.py"],
 [("value graph edits", "graph_handler.py:GraphHandler"), ("element graph edits", "graph_handler.py:BasicGraphHandler"),
  ("element edits", "graph_handler.py:GraphElement"), ("ellipse compound edits", "multi_ellipse_obstacle.py:set_parent"),
  ("articulated body edits", "multi_body_human.py:add_component"), ("compound edits", "multi_obstacle.py:add_component")],
 observe=["get_parent / get_children / get_root_indices / get_nodes_hirarchy_descending", "parent / children / expel"])

prop("C09", "Every obstacle keeps its own local motion through container edits",
 "After any sequence of insertions, replacements, removals and re-planning in an obstacle container, each obstacle is answered with the local convergence motion planned for that very obstacle, and never with another's or a removed one's. A planned motion leads to the goal: it is finite everywhere, vanishes at the goal and is no faster than its limit. At the obstacle's own position it agrees in direction with the nominal motion it was planned from.",
 ["histories"],
 "all edit and re-planning histories over straight, rotated and goal-less nominal motions in two and three dimensions",
 "tests append once and plan once",
 ["rotation_container.py", "multihull_convergence.py"],
 [("parallel list of local motions", "rotation_container.py:append"), ("removal and replacement", "rotation_container.py:__delitem__"),
  ("planning", "rotation_container.py:set_convergence_directions")],
 observe=["get_convergence_direction", "len / iteration"])

prop("C10", "Experiment records survive crashes and are summarised faithfully",
 "When a batch experiment is killed at any point or meets a full or failing disk, every record left under its final name is either absent or complete, and a run that is not fully recorded is never counted as a finished one. Summaries are the averages over exactly the complete records, do not depend on the order in which the file system lists them or on evaluating twice, and a record whose run stopped early is counted as stuck rather than converged.",
 ["crash_points", "fault_sequences", "histories"],
 "all crash points, short writes and disk-full errors while records are written, all listing orders, all mixtures of complete, early-stopped and empty records",
 "no test touches the recording or summarising code, and no crash is ever injected",
 ["comparison/comparison_multiobstacle_vectorfield.py", "comparison/evaluation_trajectories.py", "comparison/evaluation_trajectories_with_std.py", "comparison/evaluation_path_following.py"],
 [("record writing", "comparison/comparison_multiobstacle_vectorfield.py"), ("summary", "comparison/evaluation_trajectories.py:TrajectoryEvaluator"),
  ("summary with spread", "comparison/evaluation_trajectories_with_std.py"), ("path-following summary", "comparison/evaluation_path_following.py")],
 observe=["files in the record folder", "summary attributes"])

prop("C11", "Nominal motions are well defined and converge under clock jitter",
 "Each nominal motion returns a finite velocity vector no faster than its configured limit at every position, including its own goal, centre and way points, stands still at its goal, and answers the same whatever was asked before. Integrated with any sequence of small, irregular time steps and interrupted by any finite number of pushes and moved frames it settles on what it promises: the goal, the circle of its radius around its own pose travelled in its sense of rotation, the spiral around its axis, or the end of its way-point path, and a robot released at the start of a way-point path stays close to that path. A moving frame follows its own motion while the robot is close, waits while the robot is away, and is never moved by asking.",
 ["histories", "schedules", "fault_sequences"],
 "all step-size sequences (jitter, stalls, bursts), pushes and start positions, all parameterisations of the circular, way-point, moving-frame and locally rotated motions",
 "tests evaluate single positions with fixed step or none",
 ["dynamics/circular_dynamics.py", "dynamics/segmented_dynamics.py", "dynamics/projected_rotation_dynamics.py", "dynamics/locally_rotated_linear_dynamics.py"],
 [("circular motion", "dynamics/circular_dynamics.py"), ("way-point path", "dynamics/segmented_dynamics.py"),
  ("rotated field", "dynamics/projected_rotation_dynamics.py"), ("locally rotated field", "dynamics/locally_rotated_linear_dynamics.py")],
 observe=["evaluate(position)"])

prop("C12", "A motion learned from demonstrations is sound for every random seed",
 "Whatever random seed and sample order the learner happens to use, the learned regions cover every demonstrated sample, each region has at most one successor path ending in the goal region without cycles, and every demonstrated sample belongs to exactly one region. The learned motion is finite and bounded at every position, vanishes at the demonstrated goal, is reproducible for the same seed, and carries a robot released at any demonstrated sample, pushed around a finite number of times inside the regions, to the goal.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "all random seeds, demonstration sets, sample orders, and push sequences during replay of the motion",
 "tests fix one seed and one demonstration file",
 ["kmeans_learner/kmeans_motion_learner.py", "kmeans_learner/kmeans_obstacle.py"],
 [("clustering and renumbering", "kmeans_learner/kmeans_motion_learner.py"), ("region hulls", "kmeans_learner/kmeans_obstacle.py")],
 observe=["predict / evaluate", "kmeans labels and graph"])

prop("C13", "Connected rooms form one reachable space through every edit history",
 "After any sequence of adding, linking, removing and replacing rooms, parent and child links mirror each other and refer only to present rooms, levels count the links to the root, and the passage point of a room that overlaps its parent lies in both. A location is free exactly when it is inside some room. Relative references adjusted for one location depend on that location and the rooms alone, not on the order in which the rooms were registered, and leave no trace once reset or recomputed for another.",
 ["histories"],
 "all room edit and query histories over overlapping elliptic rooms",
 "tests build one corridor and never remove a room",
 ["multiboundary_container.py", "rotation_container.py"],
 [("room links", "multiboundary_container.py:extend_graph"), ("passage points", "multiboundary_container.py:_get_intersection"),
  ("relative references", "multiboundary_container.py:update_relative_reference_point")],
 observe=["get_parent / get_children / get_level_numbers / get_parent_intersection / is_collision_free"])

prop("C14", "Averaging directions is independent of history and of registration order",
 "A weighted average of registered directions depends only on the tree and the weights of that query: earlier queries, failed queries, additions elsewhere in the tree and the order of siblings leave it unchanged. With all weight on one entry it is that entry's direction, with all weight on the root it is the root's, it is always a unit vector, and turning all directions together turns the average with them. A single chain of directions averages the same whether it is kept in a tree or as a sequence, and however that sequence was put together.",
 ["histories", "fault_sequences"],
 "all interleavings of tree growth, queries with arbitrary weights, rejected edits and rejected queries, in two and three dimensions, including nearly parallel and nearly opposite directions",
 "tests build a fresh tree per assertion",
 ["vector_rotation.py"],
 [("weight bookkeeping", "vector_rotation.py:update_partial_rotations"), ("level-wise summing", "vector_rotation.py:evaluate_graph_summing"),
  ("edits", "vector_rotation.py:add_node")],
 observe=["get_weighted_mean / reduce_weighted_to_sequence"])

prop("C15", "Projecting a location around an obstacle and back returns the location",
 "Mapping any location outside an obstacle into the unfolded reference space and back returns the same location, and the mapped nominal velocity mapped back is unchanged.",
 ["inputs"], "all locations, obstacle shapes and goal positions",
 "tests sample a few positions",
 ["dynamics/projected_rotation_dynamics.py"],
 [("forward and backward mapping", "dynamics/projected_rotation_dynamics.py")],
 observe=["mapping functions"])

prop("C16", "Rotating from one direction to another and back is the identity",
 "The rotation built from two directions carries the first onto the second, preserves lengths and angles, and its inverse undoes it for every vector.",
 ["inputs"], "all pairs of non-opposite directions in any dimension",
 "tests sample a few pairs",
 ["vector_rotation.py"],
 [("rotation from two directions", "vector_rotation.py:VectorRotationXd")], observe=["rotate / inverse_rotate"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
with out.open("w") as f:
    for p in P:
        p["anchors"]["files"] = list(dict.fromkeys(p["anchors"]["files"]))
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
