# Writes /verif/properties.jsonl
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "where": w} for n, w in state] if isinstance(state[0], tuple) else state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "A cell's statistics are those of exactly the points added to it",
  "After any sequence of adding points and recomputing, a cell's point count, mean and second moments are those of exactly the points added so far. Recomputing a cell that holds at least three points makes its covariance the unbiased sample covariance (divisor n-1) of all of them, whatever earlier recomputations took place in between, and never changes the count, mean or moments.",
  ["inputs","histories"],
  "for all point sequences of any length and all interleavings of add/recompute calls",
  "The tests add one fixed list of points and recompute once or twice; an error that depends on the interleaving, on the order, or on one moment being wrong for asymmetric data is invisible to them.",
  ["src/ndt_model.cpp", "include/ndt_2d/ndt_model.hpp"],
  [("incremental moments", "src/ndt_model.cpp Cell::addPoint"), ("covariance from moments", "src/ndt_model.cpp Cell::compute")])
p("C02", "A cell's score is a bounded Gaussian of the distance to its mean",
  "A recomputed cell with fewer than five points scores 0 everywhere; with five or more it scores exp(-d/2), where d is the squared Mahalanobis distance to the cell mean under the sample covariance whose smaller eigenvalue, when under one thousandth of the larger, is treated as that floor in the determinant only. The score is finite, lies in [0, 1] and is 1 at the mean; a cell whose points coincide (no spread beyond rounding) scores 0, never NaN.",
  ["inputs"],
  "for all point sets and query points, degenerate (collinear, coincident) sets included",
  "Three fixed sets of points cannot show that the score is bounded, symmetric and finite for every covariance; degenerate sets are where it goes wrong.",
  ["src/ndt_model.cpp"],
  [("eigenvalue floor", "src/ndt_model.cpp Cell::compute"), ("score", "src/ndt_model.cpp Cell::score")])
p("C03", "Every scan point is counted in the one grid cell that covers it",
  "Adding a scan to a grid transforms each point by the scan pose and adds it, exactly once, to the one cell whose square covers it; points outside the grid are ignored and change nothing. A query uses the same cell and scores 0 outside the grid, and no coordinate, however large, makes the grid read or write outside its cells.",
  ["inputs","configurations"],
  "for all grids of positive cell size, all poses, all point lists of any length, all finite coordinates",
  "Tests use one grid and a few points well inside it; index arithmetic fails at the borders, on non-square grids, negative origins and extreme coordinates.",
  ["src/ndt_model.cpp"],
  [("cell index", "src/ndt_model.cpp NDT::getIndex"), ("binning", "src/ndt_model.cpp NDT::addScan"), ("query", "src/ndt_model.cpp NDT::likelihood")])
p("C04", "All ways to query a grid's likelihood agree and change nothing",
  "The likelihood of a list of points is the sum of the likelihoods of its points, a three-component point scores as its first two components, and the likelihood of a scan is that of its points moved by its pose (rotation, then translation). Queries leave the grid and the scan unchanged.",
  ["inputs","histories"],
  "for all grid contents, all poses and all point lists of any length",
  "The tests score a handful of points; a dropped point, a wrong rotation sign or a query that alters state needs other poses, lengths and histories to show.",
  ["src/ndt_model.cpp", "include/ndt_2d/conversions.hpp"],
  [("likelihood overloads", "src/ndt_model.cpp NDT::likelihood"), ("pose to transform", "include/ndt_2d/conversions.hpp toEigen")])
p("C05", "A scan's barycenter always reflects its latest pose and points",
  "Whatever the order and number of earlier calls, a scan reports the last pose, points and id it was given, and its barycenter pose is its position plus the mean of its points rotated by its heading, with the same heading. A scan without points has its own pose as barycenter.",
  ["histories","inputs"],
  "for all sequences of setter and getter calls and all poses and point lists",
  "Staleness of the cached barycenter depends on the order of calls; tests sample one order.",
  ["src/scan.cpp", "include/ndt_2d/scan.hpp"],
  [("cached barycenter", "src/scan.cpp Scan::update"), ("invalidation", "src/scan.cpp Scan::setPose, Scan::setPoints")])
p("C06", "A constraint records the exact relative pose between its two scans",
  "A constraint made from two scans holds their ids, the position of the second scan in the frame of the first, their heading difference, the inverse of the given covariance and is not switchable. Making it changes neither scan nor the covariance.",
  ["inputs"],
  "for all pairs of scan poses and all invertible covariance matrices",
  "A frame error (rotating by the wrong heading, transposed rotation, swapped endpoints) cancels for the aligned poses a test picks.",
  ["src/constraint.cpp"], [("constraint construction", "src/constraint.cpp makeConstraint")])
p("C07", "Pose-graph error is zero exactly when poses satisfy the constraint",
  "For two poses and a measured relative pose, the squared norm of the optimizer's residual equals e'We, where e is the position error in the first pose's frame together with the heading error wrapped to [-pi, pi), and W is the constraint's information matrix. It is zero exactly when the relative pose equals the measurement up to full turns of heading.",
  ["inputs"],
  "for all poses, measurements and positive definite information matrices",
  "Tests optimize without constraints; a transposed square root or a wrap error shows only for correlated information or large headings.",
  ["include/ndt_2d/ceres_solver_pose.hpp", "src/ceres_solver.cpp"],
  [("residual", "include/ndt_2d/ceres_solver_pose.hpp PoseGraph2dErrorTerm"), ("square root of information", "src/ceres_solver.cpp CeresSolver::addConstraint")])
p("C08", "Optimization uses each constraint once and moves only solved scans",
  "Over any number of optimize calls, each constraint becomes exactly one term between the pose variables of the two scans it names, every call starts from the scans' current poses, and the first scan is held fixed. An empty scan list or an unusable solution returns false and moves no scan; success returns true and gives every scan its solved pose, and no input, an empty constraint list included, aborts the process.",
  ["histories","fault_sequences"],
  "for all histories of optimize calls with growing lists of scans and constraints, and all outcomes of the solver",
  "The one test uses scans without constraints; bookkeeping across repeated calls and failure paths is never exercised.",
  ["src/ceres_solver.cpp", "include/ndt_2d/ceres_solver.hpp"],
  [("node and constraint bookkeeping", "src/ceres_solver.cpp CeresSolver::optimize"), ("problem terms", "src/ceres_solver.cpp CeresSolver::addConstraint")])
p("C09", "The bin tree counts exactly the distinct bins occupied",
  "After any sequence of insertions since the last clear, the leaf count equals the number of distinct bins the inserted poses fall into, where every bin has the configured width in each axis. Clearing makes it zero, and insertion never loses or merges earlier bins.",
  ["histories","inputs"],
  "for all insertion sequences, poses and positive bin sizes",
  "Tree shape depends on insertion order; equal keys, ties at the pivot and negative coordinates are beyond a sampled test, and none exists.",
  ["include/ndt_2d/kd_tree.hpp"], [("bin key", "include/ndt_2d/kd_tree.hpp KDTree::insert"), ("tree insertion", "include/ndt_2d/kd_tree.hpp KDTree::_insert")])
p("C10", "Published filter statistics are those of the current particles",
  "After every operation of the particle filter the weights are non-negative and sum to one, the mean is the weighted mean of the particles (circular mean for heading), and the covariance holds the weighted covariance of the positions and the weighted variance of the headings about the mean heading, of exactly the current particles and weights. After a measurement each weight is proportional to the score of the scan at that particle's pose. This holds for every set of measurement scores of one sign, all-zero scores included, and regardless of earlier operations; the published poses are those of the current particles.",
  ["histories","inputs"],
  "for all particle sets, weights and histories of operations",
  "Accumulators that are not reset, or normalisation that divides by zero, show only in later calls or for scores no test supplies.",
  ["src/particle_filter.cpp", "include/ndt_2d/particle_filter.hpp"],
  [("statistics", "src/particle_filter.cpp ParticleFilter::updateStatistics"), ("weights from scores", "src/particle_filter.cpp ParticleFilter::measure")])
p("C11", "Resampling keeps the particle count within its bounds",
  "After resampling, the number of particles is at least the configured minimum and at most the configured maximum (for minimum no larger than maximum), weights and particles correspond one to one, and every particle is a copy of one that had non-zero weight before. Each particle drawn is entered in the bin count exactly once per resampling.",
  ["inputs","configurations"],
  "for all particle sets, weights, bounds, error parameters and random draws",
  "The loop's stopping rule depends on random draws and bin counts; a sampled run cannot cover them, and no test exists.",
  ["src/particle_filter.cpp"], [("adaptive resampling", "src/particle_filter.cpp ParticleFilter::resample")])
p("C12", "Without noise the motion model applies odometry exactly",
  "With zero noise, a particle moved by an odometry step ends at the composition of its pose and the step (to single precision), for steps longer than the one-centimetre rotation threshold, with its heading kept normalized. With noise, the spread of each motion component is that of the configured parameters and is the same for forward and reverse motion, and every particle is moved independently.",
  ["inputs"],
  "for all odometry steps, particle poses and non-negative noise parameters",
  "Quadrant and sign errors show for some headings only; the noise scale cannot be read off samples.",
  ["src/motion_model.cpp"], [("sampling", "src/motion_model.cpp MotionModel::sample")])
p("C13", "The occupancy grid covers all scans and marks what they saw",
  "A generated grid has room for every scan's pose and points, so no ray reads or writes outside it, whatever earlier grids were generated and however poses changed since. Every cell is unknown (-1), free (0) or occupied (100): unknown exactly when no ray touched it, occupied exactly when the share of rays ending there exceeds the threshold, and every scan point's cell has been touched.",
  ["inputs","histories"],
  "for all scan lists, poses, resolutions, thresholds and call histories",
  "Out-of-bounds writes need poses that moved after the first grid or a sensor outside its points' bounding box.",
  ["src/occupancy_grid.cpp"], [("bounds", "src/occupancy_grid.cpp OccupancyGrid::updateBounds"), ("ray tracing", "src/occupancy_grid.cpp OccupancyGrid::getMsg")])
p("C14", "Saving and loading a graph gives back the same graph",
  "Saving a graph and loading the file gives the same scans (id, pose, points) and constraints (endpoints, transform, information, switchable flag) in the same order. Saving leaves the graph unchanged.",
  ["inputs"], "for all graphs of any size",
  "Field mix-ups (transposed information, swapped endpoints, heading through a quaternion) cancel for symmetric test data; the repository has no save/load test.",
  ["src/graph.cpp"], [("save", "src/graph.cpp Graph::save"), ("load", "src/graph.cpp Graph::Graph")])
p("C15", "The nearest-scan search returns exactly the scans within range",
  "A search returns the index of every scan among the first N (all, when no limit is given) whose barycenter, or pose where barycenters are not used, lies within the given distance of the query scan's, and no other. It changes neither the graph nor the query.",
  ["inputs"],
  "for all graphs, query scans, distances and limits",
  "A squared-distance mix-up agrees with the truth at distance one; limits and barycenter choice multiply the cases.",
  ["src/graph.cpp", "include/ndt_2d/graph.hpp"],
  [("radius search", "src/graph.cpp Graph::findNearest"), ("point access", "include/ndt_2d/graph.hpp GraphAdapter")])
p("C16", "Scan matching returns the best pose of its search window",
  "Matching tries every offset of the configured window, returns the lowest mean score found and the offset where it was found, and reports the score-weighted covariance of the offsets; scoring a scan or its points at a pose gives the mean negated grid likelihood of the selected beams moved to that pose. The grid built covers every added scan out to the maximum range, the beams used never exceed the configured number or the scan's size, and with no map or no points the score is 0.",
  ["inputs","configurations"],
  "for all maps, scans, poses, window sizes, resolutions and beam limits",
  "The optimum over a window and the covariance formula are not visible in a single scored scan; the repository has no matcher test.",
  ["src/scan_matcher_ndt.cpp"],
  [("window search", "src/scan_matcher_ndt.cpp ScanMatcherNDT::matchScan"), ("map extent", "src/scan_matcher_ndt.cpp ScanMatcherNDT::addScans"), ("scoring", "src/scan_matcher_ndt.cpp ScanMatcherNDT::scorePoints")])
p("C17", "Each valid laser beam becomes exactly one correctly placed point",
  "A laser message becomes a scan with one point per beam whose range is a finite number not beyond the maximum range, and no others: beam i at angle start + i*step, mirrored for an upside-down sensor, moved by the sensor mounting pose and by the robot's motion during the sweep. Empty messages are safe.",
  ["inputs","configurations"],
  "for all laser messages of any length, non-finite ranges included, all mountings and robot motions",
  "NaN, infinite and boundary ranges, an inverted sensor and motion during the sweep multiply; the callback has no test.",
  ["src/ndt_mapper.cpp"], [("projection", "src/ndt_mapper.cpp Mapper::laserCallback")])
p("C18", "The shared map is consistent whenever its lock is free",
  "Whenever no thread holds the map lock, every constraint names existing scans and every scan's id is its position in the list; every change to the map happens under the lock. The pair of robot and odometry poses is written and read as a pair under its own lock.",
  ["schedules","histories"],
  "for all interleavings of laser, pose and configure callbacks with the loop-closure and publishing threads",
  "Races and intermediate states need particular schedules; the node has no test.",
  ["src/ndt_mapper.cpp"], [("locking", "src/ndt_mapper.cpp Mapper::laserCallback, Mapper::poseCallback, Mapper::loopClosureThread, Mapper::mapPublishThread, Mapper::configure")])
p("C19", "The map grows only when mapping is enabled, localized and moving",
  "A laser message adds at most one scan, and only when mapping is enabled without a particle filter, the robot is localized, and either the map is empty or the robot has moved or turned at least the configured minimum since the last accepted scan; otherwise the map is unchanged. Each added scan after the first comes with exactly one constraint from its predecessor, and disabling mapping or loading a file requires localization again before scans are used.",
  ["histories","fault_sequences"],
  "for all histories of callbacks, all messages and all transform failures",
  "Gating depends on the history of callbacks and on transform failures; the node has no test.",
  ["src/ndt_mapper.cpp"], [("gating", "src/ndt_mapper.cpp Mapper::laserCallback"), ("configuration", "src/ndt_mapper.cpp Mapper::configure"), ("localization", "src/ndt_mapper.cpp Mapper::poseCallback")])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
