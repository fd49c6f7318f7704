"""Writes /verif/known_findings.json. `findings` are open defects (matched by signature), `fixed` suppress nothing."""
import json, pathlib
FIXED = [
 ("C01", "98c2eeb", "a tracking batch holding a marker that matches a part registered without filters made the update abort"),
 ("C02", "a2b2788", "tracked bodies were looked up under another key than the one they were stored with, so measurements were attributed by list position"),
 ("C02", "70427b9", "the robot's measured orientation was thrown away, so parts were never turned into the robot frame"),
 ("C02", "82b439a", "a tracked limb did not point along its measured direction"),
 ("C02", "7060482", "a tracked limb missing from a batch lost its orientation"),
 ("C08", "6f35c44", "a body part with unknown parent was half registered before the error was raised"),
 ("C03", "4125b20", "local positions of components were rotated but not translated when a compound obstacle was queried in its own frame"),
 ("C03", "cf6880b", "same defect in the block arch"),
 ("C03", "d2a67af", "the linear velocity of a compound obstacle was read from the wrong attribute"),
 ("C03", "8f4f030", "the joint of two components was searched with the shape of the wrong one"),
 ("C03", "31bc657", "the joint of a component added after the group had moved was searched in mixed frames"),
 ("C08", "02731d0", "a component with unknown parent was half registered before the error was raised"),
 ("C03", "7409f83", "growing a component left its reference point behind"),
 ("C04", "e40f966", "the rotational avoider drove into moving obstacles: reference and convergence direction were swapped when weighting the rotation"),
 ("C05", "35ddef1", "almost parallel or opposite directions were rotated the wrong way or not at all"),
 ("C05", "469dd11", "a turning compound obstacle in three dimensions made the evaluation abort"),
 ("C05", "d7643fc", "heading numerically exactly towards a reference point gave a command that was not a number"),
 ("C05", "d6c740f", "the command was faster than nominal or did not stop in front of an obstacle when no rotation was applied"),
 ("C05", "20e10e4", "within 1e-8 of the goal the evaluation aborted"),
 ("C05", "87b853e", "a component exactly on the other side of the goal stopped the evaluation in a debugger trap"),
 ("C05", "529708c", "numerically (anti-)parallel directions made the evaluation abort (parents not aligned)"),
 ("C05", "d164023", "the plane of almost (anti-)parallel directions was not orthogonal, so the evaluation aborted (parents not aligned)"),
 ("C04", "bf72870", "the nonlinear avoider subtracted the obstacle velocity from a unit direction, so it drove into moving obstacles when the nominal speed was not one"),
 ("C09", "e535dcb", "removing or replacing an obstacle of a rotation container raised and lost the local motions of all"),
 ("C07", "ec79bd9", "with far obstacles registered first, the nonlinear avoider used their local motion for the close ones"),
 ("C07", "5bbaaad", "the slow-down of the rotational avoider depended on the registration order of aligned obstacles"),
 ("C05", "65b0bc5", "an obstacle placed exactly on the goal made the evaluation abort"),
 ("C08", "f82455e", "a graph element kept its old parent and siblings when it was moved or expelled, and array values broke the removal"),
 ("C08", "87c0059", "the element graph did not register a new element with its parent"),
 ("C08", "2ec55b3", "the value graph kept the old link of a moved element, accepted cycles and duplicates, and registered half of a refused addition; walking and roots raised or listed None"),
 ("C08", "9119bcc", "component 0 could not be protected as root or parent of an ellipse compound, and a refused link stayed half registered"),
 ("C08", "f6eae7b", "the block arch registered half of a component with unknown parent"),
 ("C09", "97722ee", "local motions were planned relative to the origin instead of the goal; an obstacle on the goal made planning abort"),
 ("C13", "5fd9abe", "removing a room raised or hit a debugger trap; the first automatically linked room became its own child"),
 ("C13", "307da87", "linking a room again left it among the children of its old parent; cyclic links were accepted; listing the boundaries raised"),
 ("C13", "de9c357", "the passage between two rooms was searched around the origin"),
 ("C13", "b97e61f", "a robot at the centre or on the wall of a room made the relative references abort or not a number"),
 ("C14", "1445245", "reading the root or a parent of a direction tree raised, and children came as an exhaustible iterator"),
 ("C14", "fbcaefc", "changing the direction of an inner entry raised half-way"),
 ("C14", "43c3856", "a refused entry (unknown parent, too deep, not a number) stayed half registered"),
 ("C14", "9aac4f2", "a refused sequence left its first part in the tree"),
 ("C14", "47cc6ee", "rotating with the average of a tree always raised"),
 ("C14", "7b9a694", "directions were evaluated in registration order rather than from the root"),
 ("C14", "ebf6570", "the reduced sequence applied its last rotation twice when deeper entries had no weight"),
 ("C14", "ad569c6", "numerical errors tripled per level, so averages in trees of twenty levels were no unit vectors"),
 ("C14", "2a3585c", "whether a level of cancelling rotations was kept in the reduced sequence depended on rounding"),
 ("C10", "5bf8109", "the trajectory evaluations could not run: missing imports and invalid dynamics"),
 ("C10", "0f07c92", "a run that stopped dropped its last position, and was empty when stuck at its start"),
 ("C10", "8c06ee8", "a record with a single position made the evaluation abort"),
 ("C10", "7ee9be5", "evaluating twice counted the runs twice, the order of listing and files being written changed the averages"),
 ("C10", "6e6d26d", "empty records were counted in the averages, and short runs made the averages abort or not a number"),
 ("C10", "63b3bf1", "a killed or failing recording left partial records that were later evaluated as complete runs"),
 ("C10", "af4aa4b", "path following without preselection raised"),
 ("C10", "1b4c54c", "the spread of the occupied fraction was always zero"),
 ("C10", "9aefb27", "comparing records with different numbers of runs aborted"),
 ("C11", "bfc1b4f", "a moving frame stopped in the debugger whenever it moved"),
 ("C11", "4b54fea", "the speed limit of a circular motion was only applied near its centre"),
 ("C11", "7e87793", "a rotating motion ignored its pose and circled around the origin"),
 ("C11", "e09e248", "a way-point path returned a number instead of a vector at its end"),
 ("C11", "ff4c45e", "the weights on the corner shared by two segments added up to two"),
 ("C11", "fadee6e", "a spiral away from the origin drifted off its axis or ran backwards: its velocity was moved like a position"),
 ("C11", "aebbf28", "a spiral towards an attractor was not a number where its parts cancel"),
 ("C11", "dc9bcda", "a locally rotated motion whose obstacle is at the attractor could not be evaluated"),
 ("C11", "ddd37d4", "a locally rotated motion dropped its rotation exactly beside the obstacle"),
 ("C11", "f3c865c", "a deviated motion could not be learned in three dimensions"),
 ("C11", "0528c90", "the convergence velocity of a deviated motion was not limited"),
 ("C11", "50b4952", "unfolding a position changed the array it was asked about"),
 ("C11", "6ad718d", "a circular motion without a pose could not be built"),
 ("C12", "6355347", "samples were relabelled while sparse clusters were still being removed, so labels and regions disagreed"),
 ("C12", "0ba58aa", "learning again kept the links of the former clusters, so regions had several or missing successors"),
 ("C12", "b118449", "a learner built from given centers could not predict outside of its regions"),
 ("C12", "e152991", "the normal at the center of a region was no unit vector and the queried position was changed"),
 ("C12", "5269d80", "searching a surface point changed the queried position"),
 ("C12", "21f2950", "the normal at a surface point of a region was that of an unrelated plane, or raised"),
 ("C12", "45c75b9", "the position between two regions ignored which regions were asked for"),
 ("C12", "0e95bf9", "a query without passage treated the last region as one"),
 ("C12", "c54d313", "rounding at the surface of a region gave not-a-number, and turned the robot around in the middle of a passage"),
 ("C07", "735d0a8", "the local motion of the first obstacle was used to converge around all the others, so commands depended on the registration order"),
 ("C07", "4413090", "a convergence radius given for one evaluation stayed and changed the later commands"),
 ("C12", "f1effcf", "with some seeds the last cluster was just the goal and learning was refused"),
 ("C05", "718f9ad", "asking at the end of a way-point path aborted"),
 ("C05", "878e664", "a growing obstacle pushed the robot at any distance, so the command did not approach the nominal motion"),
 ("C11", "324f839", "working in the answer of a constant motion changed the motion"),
 ("C03", "9e8d069", "asking a container of compound obstacles whether a location is in free space raised"),
 ("C14", "17bf119", "turning one rotation by another turned it in its own plane"),
 ("C14", "bd8905a", "a direction appended to a sequence did not start where the sequence ends"),
 ("C14", "cb605e6", "partly weighted rotation sequences averaged away from the directions in 3-D"),
 ("C03", "89da073", "moving a block arch left all of its walls behind"),
 ("C03", "d0dbc53", "the pose handed out by a block arch was its own, so working in it moved the arch"),
 ("C07", "0e41a09", "obstacles given for one evaluation replaced those of the avoider and changed the later commands"),
 ("C07", "9b30eab", "a convergence radius given along with an obstacle was ignored, and a removed obstacle left its radius to the next one"),
 ("C05", "beae799", "two parts or obstacles with full convergence weight were averaged with weights adding up to two"),
 ("C12", "6521cfb", "a position a rounding error away from the center of a region counted as outside"),
]
FINDINGS = [
 ("C05", "helix-compound-abort", "asking in front of a compound obstacle aborts when the nominal motion has no goal and is not constant (SpiralingDynamics3D with a default motion): the branches of the convergence tree do not line up",
  "multi_obstacle_avoider.compute_convergence_sequence with nonlinear_rotation_avoider.ConvergenceDynamicsWithoutSingularity"),
]
doc = {"fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED],
       "findings": [dict(property=p, signature=s, what=w, where=x) for p, s, w, x in FINDINGS]}
json.dump(doc, open(pathlib.Path(__file__).resolve().parents[1] / "known_findings.json", "w"), indent=1)
