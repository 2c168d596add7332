"""Source of /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S = "celest/schedule/"
p("C01", "Every scheduled observation is feasible for its own request",
  "Whatever the scheduler holds or returns, each scheduled observation belongs to exactly one request and lies inside one of that request's own visible time windows, lasts exactly the requested duration, ends no later than the request's deadline, and has at least the requested image quality (floor of 10 - 9*|start - window middle| / half window length). If the request asked for a look angle, the start is a time sample of that window at which the pitch reaches the asked angle (the last sample before it crosses it), and a window whose pitch does not bracket the angle is never used.",
  ["inputs", "histories"], "all request sets, windows, deadlines, qualities and look angles, and every sequence of removal/insertion steps of the search",
  "The tests check one fixed request set by counting how many requests were scheduled; the scheduler's own test module cannot run at all (missing data), so no test relates a produced observation to its request's constraints after several destroy/repair rounds.",
  [S+"insertion_operators.py", S+"scheduler.py", S+"request_handler.py"],
  [("insert_first_n_requests and its bound/deadline/quality predicates", S+"insertion_operators.py"),
   ("stored window index must stay valid when windows are re-sorted", S+"request_handler.py")],
  ["request handler fields after each operator", "ObservationWindow attributes returned by Scheduler.generate"])
p("C02", "Scheduled observations never overlap",
  "At no point of a scheduling run (initial solution, after any insertion or removal step, or in the returned schedule) do two scheduled observations overlap in time by more than a shared end point. This holds for the first, the last and every other request alike, whichever of two overlapping observations is longer.",
  ["inputs", "histories"], "all request sets and all operator histories, any relative position of two observations (partial, nested, equal)",
  "Pairwise disjointness is quantified over all pairs and all reachable solutions; tests only call the conflict predicate on a few hand-made intervals.",
  [S+"insertion_operators.py", S+"request_handler.py"],
  [("does_conflict_exist over every scheduled request", S+"insertion_operators.py"), ("iteration over all requests", S+"request_handler.py")],
  ["request handler fields after each operator", "Scheduler.generate output"])
p("C03", "The generated schedule reports exactly the solution found",
  "Scheduler.generate returns exactly one observation window per scheduled request and none else, carrying that request's location, scheduled start time and duration, and the satellite's roll, pitch and yaw for pointing at that location at the start time (the ephemeris sample nearest to it). A request added to the scheduler is scheduled with the deadline, duration, priority, quality, look angle and visibility windows the caller's arguments describe.",
  ["inputs", "configurations"], "all satellites, request sets, and search parameters",
  "The Scheduler test module is not in the stable set (it needs absent files); nothing tests the hand-over from the solution to the returned windows.",
  [S+"scheduler.py", "celest/encounter/window_handling.py"],
  [("_generate_window_handler_from_request_list", S+"scheduler.py"), ("Scheduler.add_request", S+"scheduler.py")],
  ["WindowCollection returned by Scheduler.generate"])
p("C04", "The neighbourhood search keeps the best solution and ends when it should",
  "The solver returns the cheapest solution among the initial one and every candidate it produced, never one worse than the initial solution, and never changes the initial solution the caller passed in. Each iteration applies one destroy then one repair operator, once each, to a copy of the current solution with the given remove/add numbers; it runs at most max_iter iterations and stops early exactly when the best solution is complete (running none if the initial one is).",
  ["histories", "inputs"], "all cost landscapes, operator behaviours, random choices and parameter values",
  "Tests run the solver on one toy or check that the result is not worse for one seed; best-so-far, no aliasing and early stop are statements about every run history.",
  [S+"alns.py"], [("solve loop with deep copies", S+"alns.py")],
  ["calls received by user supplied operators and the returned value"])
p("C05", "Adaptive operator weights and acceptance follow the ALNS rule",
  "All operators weigh 1 at the start of every search. After an iteration only the weights of the used destroy and repair operators change, to (1-l)*weight + l*score/6 with score 3 for a new best, 2 for a candidate better than the current solution, 1 for another accepted one and 0 for a rejected one; operators are picked with probability proportional to weight (a zero weight operator only if all are zero). A candidate that is no worse than the current solution is always accepted, and a worse one with probability exp(-100*(candidate - current)/|T*current|), never if T or the current cost is zero, where T starts at 0.05*initial cost/ln(0.5) and is multiplied by the annealing coefficient every iteration; the search is defined for every initial cost, including zero, and every coefficient in [0, 1].",
  ["histories", "inputs"], "all cost sequences, decay values, annealing coefficients and random choices",
  "Tests call the private update helpers on single values; which score a real iteration awards, and the acceptance probability along a cooling run, are history dependent.",
  [S+"alns.py"], [("_accept, _update_destroy_weights, _update_repair_weights, _get_probabilities", S+"alns.py")],
  ["destroy_weights / repair_weights between iterations", "which solution the next iteration starts from"])
p("C06", "Request bookkeeping stays consistent under every operation",
  "The number of scheduled requests always equals the number of requests flagged scheduled; scheduling a request sets, and unscheduling it clears, exactly that request's flag, window, start and duration. Iterating over the container yields every request once, and every sort yields a permutation in the requested order that keeps each scheduled request attached to the same visible time window.",
  ["histories"], "all sequences of add, schedule, unschedule (also repeated on one request) and sort operations",
  "Tests exercise each method once from a fresh container; counter drift, the last element, and window indices going stale need operation sequences.",
  [S+"request_handler.py"], [("RequestHandler methods and sorts", S+"request_handler.py")],
  ["RequestHandler public methods"])
p("C07", "Removal operators remove exactly what their criterion says",
  "Every removal operator, asked to remove k, unschedules exactly min(k, number scheduled) requests and leaves all other requests' schedules and data untouched. Priority, opportunity and conflict removal take scheduled requests of highest priority, largest number of windows, or highest conflict degree (mean overlap of the used window with all windows overlapping it) first; random removal can hit every scheduled request.",
  ["inputs", "histories"], "all containers (any mix of scheduled and unscheduled requests, ties, single requests) and all k >= 0, all random choices",
  "Tests use one container with everything scheduled and check counts; mixed containers, ties, k=0, and the reachability of each request by the random operator are not covered.",
  [S+"removal_operators.py", S+"request_handler.py"],
  [("random_removal, priority_removal, opportunity_removal, conflict_removal", S+"removal_operators.py"), ("_conflict_degree", S+"request_handler.py")],
  ["container before and after the operator"])
p("C08", "Insertion operators are greedy, bounded and maximal",
  "An insertion operator asked to insert k schedules at most k unscheduled requests and changes no already scheduled one; requests are tried in order of decreasing priority, increasing number of windows, or (conflict insertion) existing order with windows in increasing conflict degree. Each tried request gets its first window whose candidate start - (rise + set + duration)/2, or the look angle sample - is feasible and conflict-free, and an unscheduled request is left out only if k were already inserted or it has no such window.",
  ["inputs", "histories"], "all containers, partial schedules and k >= 0",
  "Tests only compare the number inserted on one fixture; greediness and maximality are quantified over all windows of all requests.",
  [S+"insertion_operators.py", S+"scheduling_utils.py"],
  [("insert_first_n_requests", S+"insertion_operators.py"), ("greedy_insertion, minimum_opportunity_insertion, minimum_conflict_insertion", S+"insertion_operators.py"), ("initialize_solution", S+"scheduling_utils.py")],
  ["container before and after the operator"])
p("C09", "Cost and completeness see every request",
  "The cost of a solution is minus the sum of the priorities of all scheduled requests, and a solution is complete exactly when every request is scheduled. Neither evaluation changes the solution, and both give the same answer whatever the order of the requests.",
  ["inputs", "histories"], "all containers, including empty, one-element, and those where only the first or last request is (un)scheduled",
  "The tests evaluate uniform containers, where an ignored element is invisible.",
  [S+"scheduling_utils.py", S+"request_handler.py"], [("cost, is_complete", S+"scheduling_utils.py"), ("RequestHandler iteration", S+"request_handler.py")],
  ["cost() and is_complete() on arbitrary containers"])
E = "celest/encounter/"
p("C10", "Visible time windows are exactly the maximal visible runs",
  "The generated windows, in time order, correspond one to one to the maximal runs of consecutive ephemeris samples at which the satellite's elevation exceeds the threshold and the lighting condition holds (Sun above the horizon for day, below for night, anything for anytime); none is missed, split, merged or invented, and there are no windows when nothing is visible. A window rises at the sample just before its run (the first sample if the run starts the ephemeris), sets at the last sample of the run, and carries the attitude pointing at the location.",
  ["inputs"], "all ephemerides, locations, thresholds in [0, 90] and lighting conditions; runs touching either end of the ephemeris, one-sample runs, no runs",
  "The test module for window generation cannot run (missing data files) and would compare one satellite pass list with a tolerance.",
  [E+"window_generator.py"], [("generate_vtws", E+"window_generator.py"), ("_lighting_constraint_indices", E+"window_generator.py")],
  ["WindowCollection returned by generate_vtws"])
p("C11", "A window collection behaves as an ordered homogeneous list",
  "A window collection holds, in insertion order, exactly the windows successfully added; length, indexing (positive, negative, slices) and every iteration agree with that list, and an iteration is complete and independent of any other iteration, including interrupted, nested or repeated ones. Adding anything but a window, or a window of the other kind, raises TypeError and changes nothing.",
  ["histories"], "all interleavings of add, index, len, start/advance/abandon of several iterations",
  "Tests iterate once; interrupted and nested iterations are operation histories.",
  [E+"window_handling.py"], [("WindowCollection", E+"window_handling.py")],
  ["WindowCollection public interface"])
U = "celest/units/"
p("C12", "Unit algebra respects scale and dimension",
  "Multiplying, dividing and raising units to powers (including reciprocal, zero and negative powers, nested and repeated factors, numeric factors) yields a unit whose size and dimension are the product, quotient and power of the operands' sizes and dimensions. Two expressions denoting the same product of base units in any order or grouping have the same dimension and convert into each other with the same factor, and a combination in which everything cancels is unity.",
  ["programs", "inputs"], "all unit expressions over the predefined units and units a user defines by such expressions",
  "A handful of two-factor expressions is tested; laws such as (a/b)/(a/b) = 1 or order independence quantify over all expression trees.",
  [U+"core.py", U+"display.py", U+"quantity.py"],
  [("CompoundUnit expansion and collection", U+"core.py"), ("dimension computation", U+"display.py"), ("unit scale in conversions", U+"quantity.py")],
  ["Quantity.to between expressions", ".dimension", "str(unit)"])
p("C13", "Unit conversion is a consistent group of scalings",
  "Converting a quantity multiplies its data by the ratio of the two units' sizes, so converting there and back returns the value, converting through an intermediate unit gives the direct result, and same-unit conversion is the identity; this holds for ints, floats and arrays. The predefined units have their defined mutual ratios (1 km = 1000 m = 10^5 cm = 10^6 mm, 1 mi = 1760 yd = 5280 ft = 63360 inch, 1 inch = 25.4 mm, 1 dy = 24 hr = 1440 min = 86400 s, 180 deg = pi rad, 1 deg = 60 arcmin = 3600 arcsec, 1 hourangle = 15 deg), and converting between different dimensions raises ValueError.",
  ["inputs"], "all pairs and chains of units of one dimension, all values, scalars and arrays",
  "Tests convert m to km and a few others; transitivity and the whole table of ratios are not covered.",
  [U+"quantity.py", U+"unit_initialization.py", U+"core.py"],
  [("Quantity.convert_to", U+"quantity.py"), ("unit definitions", U+"unit_initialization.py")],
  ["Quantity.to / convert_to"])
p("C14", "Quantity arithmetic and comparison do not depend on units",
  "Sum, difference, product and quotient of quantities denote the same physical value, of the right dimension, whatever units of a dimension the operands are expressed in, and the operand order only matters as in ordinary arithmetic (also with plain numbers on either side). Equality, inequality and order comparisons agree with the physical values (exactly one of <, ==, > holds, <= means < or ==, != means not ==), elementwise for arrays, and adding, subtracting or comparing different dimensions raises ArithmeticError. A quantity never equals something that is no quantity, and ordering the two or arithmetic with something that is no number either raises TypeError.",
  ["inputs", "programs"], "all operand pairs, units, scalars and arrays, and both operand orders",
  "Tests check single examples per operator, mostly with equal units and scalars.",
  [U+"quantity.py"], [("Quantity operators", U+"quantity.py")], ["results of operators on Quantity"])
p("C15", "No operation changes its inputs",
  "Unit conversions, arithmetic, comparisons, coordinate transformations, attitude/distance/look-angle/altitude computations, time conversions and window generation leave the quantities, arrays, frames, locations and satellites they are given unchanged, so repeating any of them gives the same result. The array a conversion returns never shares memory with its source in such a way that changing the result changes the source frame.",
  ["histories", "inputs"], "all operation sequences over shared objects",
  "Tests construct fresh inputs for each call and never look at the inputs afterwards.",
  [U+"quantity.py", "celest/coordinates/transforms.py", "celest/satellite.py", "celest/time.py"],
  [("deepcopy in Quantity.convert_to", U+"quantity.py"), ("deepcopy in transforms", "celest/coordinates/transforms.py")],
  ["input objects before/after each public call"])
T = "celest/time.py"; A = "celest/coordinates/astronomical_quantities.py"
p("C16", "Julian dates map to the civil calendar without gaps",
  "Calendar dates obtained from Julian dates advance exactly one civil day per unit of Julian date, with the Julian calendar before 15 October 1582 and the Gregorian calendar from then on (4 October 1582 is followed by 15 October), for arrays mixing both calendars as for single values; the day fraction is counted from midnight. The day of year is the position of the civil date (month, day) in a year of that leap status, from 1 on 1 January, and Time.datetime gives the corresponding instant (both within a quarter of a millisecond).",
  ["inputs"], "every day from year -4712 to 9999, any day fraction, scalars and arrays of any mix",
  "Tests check a few modern dates; leap-century and calendar-reform behaviour need the whole range.",
  [A, T], [("from_julian, day_of_year", A), ("Time.datetime", T)], ["from_julian, day_of_year, Time.datetime"])
p("C17", "Solar clocks advance uniformly and shift with longitude",
  "Mean solar time is 24*(Julian date + 0.5) + longitude/15 modulo 24, universal time is mean solar time at longitude zero, true solar time differs from mean solar time by the equation of time (the same for all longitudes, never more than 17 minutes within 178 years of J2000), and each hour angle is the matching solar time minus 12 hours modulo 24. All values lie in [0, 24) hours, and a scalar longitude acts like an array of equal longitudes.",
  ["inputs"], "all times within 1000 years of J2000 (scalar, list, array, with offset) and longitudes, scalar or per-time",
  "Tests compare three instants with a tolerance of a tenth of an hour.",
  [T, A], [("true_solar_time, mean_solar_time, true_hour_angle, mean_hour_angle, ut1", T), ("equation_of_time", A)],
  ["Time methods"])
p("C18", "Sidereal clocks are mutually consistent",
  "Greenwich mean sidereal time is 280.46 + 360.98564736629 d + 0.000387933 c^2 - c^3/38710000 degrees at d days and c Julian centuries after the J2000 epoch (modulo 360 degrees, to 0.001 s), apparent time differs from it by the equation of the equinoxes (under 1.3 seconds of time), and local times equal the Greenwich ones plus longitude/15 hours. All values lie in [0, 24) hours and agree modulo 24.",
  ["inputs"], "all times within 1000 years of J2000 and longitudes, scalar or per-time",
  "Tests compare three instants against astropy with tolerance 0.1 h for local times.",
  [T, A], [("gmst, gast, lmst, last", T), ("equation_of_equinoxes, sun_right_ascension", A)], ["Time methods"])
C = "celest/coordinates/"
p("C19", "Frame conversions are invertible and path independent",
  "Converting a position between the GCRS, ITRS and geodetic frames and back, or via a third frame, or to horizontal coordinates through any frame, gives the same position (to within a metre, or a millidegree for horizontal angles) at the same times, in any length unit. Results are sample by sample: converting a sub-array, a permutation or a concatenation gives the corresponding sub-array, permutation or concatenation, and a conversion to the frame the data is already in is the identity.",
  ["inputs", "programs"], "all positions from the surface to beyond geostationary altitude, both hemispheres, the poles, all dates 1950-2100, all conversion paths",
  "The coordinate and transform tests are not in the stable set (missing data); nothing tests round trips or sample independence.",
  [C+"transforms.py", C+"coordinate.py"], [("Coordinate.convert_to", C+"coordinate.py"), ("_gcrs_to_itrs, _itrs_to_gcrs, _itrs_to_wgs84, _wgs84_to_itrs, _itrs_to_azel", C+"transforms.py")],
  ["Coordinate.convert_to results"])
p("C20", "Celestial and terrestrial frames differ by the Earth's rotation",
  "The GCRS to ITRS transformation of positions and velocities is a rigid rotation (linear, lengths, angles and handedness preserved, time stamps and unit kept): frame bias, precession and nutation to the true equator and equinox of date, then a rotation about that pole by the Greenwich apparent sidereal angle (280.46 deg + 360.9856123035484 deg per day since J2000, plus the accumulated precession in right ascension and the equation of the equinoxes). An Earth-fixed point therefore moves eastwards in GCRS, and the pole moves as in the documented IAU 2000A precession and Meeus nutation series, to 0.1 arcsecond.",
  ["inputs"], "all position vectors and all dates within 1000 years of J2000",
  "Transform tests are not in the stable set and the bias, precession and nutation matrices are not tested at all.",
  [C+"transforms.py", C+"nutation_precession_matrices.py", A],
  [("_gcrs_to_itrs / _itrs_to_gcrs", C+"transforms.py"), ("bias_matrix, precession_matrix, nutation_matrix", C+"nutation_precession_matrices.py"), ("earth_rotation_angle", A), ("_apparent_sidereal_angle", C+"transforms.py")],
  ["Coordinate.convert_to results"])
p("C21", "Azimuth and elevation point at the satellite",
  "Elevation is 90 degrees minus the angle between the line of sight from the location to the satellite and the location's geocentric vertical, in [-90, 90]; azimuth is the angle of the line of sight's horizontal projection measured clockwise from North over East, in [0, 360]. This holds at every location on either hemisphere, on the equator, at any longitude and height, and for satellites anywhere, above or below the horizon, and no value is undefined where the direction is defined.",
  ["inputs"], "all locations (not exactly at a pole) and all satellite positions",
  "Azimuth/elevation tests need absent data and only northern mid-latitude sites with tolerances of degrees.",
  [C+"transforms.py", C+"ground_location.py"], [("_itrs_to_azel, _azimuth, _elevation", C+"transforms.py")],
  ["AzEl from Coordinate.convert_to"])
p("C22", "Geodetic coordinates follow the WGS84 ellipsoid",
  "A ground location's ITRS coordinates, its radius and a geodetic frame's ITRS coordinates are those of the WGS84 ellipsoid at the given geodetic latitude, longitude and height in whatever units these were given; the ITRS to geodetic conversion recovers latitude, longitude (in [-180, 180]) and height, and a satellite's altitude equals the geodetic height. The values of one sample do not depend on the other samples of the array.",
  ["inputs"], "all latitudes, longitudes and heights from -0.4 km to 50000 km, all units",
  "Tests sample a few mid-latitude points with loose tolerances (0.2 degrees) or cannot run.",
  [C+"transforms.py", C+"ground_location.py", "celest/satellite.py"],
  [("_itrs_to_wgs84, _altitude, _wgs84_to_itrs", C+"transforms.py"), ("GroundLocation.itrs_x/y/z/radius", C+"ground_location.py")],
  ["GroundLocation attributes", "WGS84 frames", "Satellite.altitude"])
p("C23", "The LVLH frame is a right-handed local orbital frame",
  "The transformation into LVLH is a rotation whose z axis points from the satellite to the Earth's centre, whose y axis is opposite to the orbital angular momentum and whose x axis completes the right-handed triad (along the direction of motion): the position becomes (0, 0, -r) and the velocity has zero y component, a positive x component, unchanged length and z component minus the radial speed. It does not depend on the units used.",
  ["inputs"], "all non-degenerate position/velocity pairs and units",
  "The transform tests are not in the stable set.",
  [C+"transforms.py"], [("_gcrs_to_lvlh, _gcrs_to_lvlh_matrix", C+"transforms.py")], ["LVLH position and velocity"])
p("C24", "Distance, look angle and attitude agree with the geometry",
  "A satellite's distance to a location is the Euclidean distance of their positions, its look angle the angle at the satellite between nadir and the location, and its roll, pitch and yaw are the 2-1-3 Euler angles of the shortest rotation taking nadir to the direction (gx, gy, gz) of the location in the LVLH frame of the satellite's GCRS position and GCRS velocity: gx = -sin(pitch)*cos(roll), gy = sin(roll), gz = cos(pitch)*cos(roll), tan(yaw) = -gx*gy/(1 + gz - gy^2), all zero when the location is at nadir. The results are the same whether the satellite was given in GCRS or ITRS and in any length unit, and are defined for every location but one straight above the satellite, from where every rotation is as long.",
  ["inputs"], "all satellite states, locations and units",
  "The satellite test module is not in the stable set (missing data).",
  ["celest/satellite.py", C+"transforms.py"], [("Satellite.distance, look_angle, attitude", "celest/satellite.py")],
  ["Satellite methods"])
p("C25", "Malformed inputs are rejected, well-formed ones accepted",
  "Coordinate frames accept exactly one-dimensional arrays of equal length, a time exactly one number or one row of numbers (kept, with the offset added), a ground location exactly latitudes in [-90, 90] and longitudes in [-180, 180] degrees in whatever angular unit they are given, window generation exactly thresholds in [0, 90] degrees and satellites with velocity, and satellites and coordinates only the supported frames; everything else is refused with an exception and never silently used. Frame data keep the values and units they were built with.",
  ["inputs", "configurations"], "all shapes, lengths, units and frame types",
  "Tests try one bad shape per class; mismatching any single array, or units other than degrees, is not tried.",
  [C+"frames/base_positions.py", T, C+"ground_location.py", C+"coordinate.py", "celest/satellite.py", E+"window_generator.py"],
  [("Position2d/Position3d checks", C+"frames/base_positions.py"), ("GroundLocation range check", C+"ground_location.py")],
  ["constructors"])
p("C26", "Saved text files contain all data in aligned columns",
  "A saved text file consists of the underlined header, then each layer's subheading, parameters and data in order, separated by single blank lines; in each table every column is as wide as its widest entry or label, labels carry the unit, and every sample appears once, in order, formatted with the layer's format, so that parsing the file returns the data. Frames, satellites (with or without velocity) and window collections save their own data this way, and the file name gets a .txt suffix only when missing.",
  ["inputs", "configurations"], "all layer structures, data values (negative, large, integer, text) and column counts",
  "Tests compare a few literal files.",
  ["celest/file_save.py", E+"window_handling.py", "celest/satellite.py", C+"frames/attitude.py"],
  [("TextFileWriter", "celest/file_save.py")], ["the written file"])
p("C27", "ISO 6709 strings encode the location",
  "A location prints as degrees, minutes and seconds of latitude with N or S, the same of longitude with E or W, and the height with its unit; minutes and seconds stay below 60, seconds and height have two decimals, and decoding the string gives back latitude and longitude to within half a hundredth of an arcsecond. The equator counts as N and the prime meridian as E. This does not depend on the angular unit the location was given in.",
  ["inputs"], "all latitudes, longitudes, heights and units, including values that round up to a full minute or degree",
  "Tests check five literal strings; carries at rounding boundaries are not among them.",
  ["celest/angle_strings.py", C+"ground_location.py"], [("_ISO6709_representation", "celest/angle_strings.py")], ["str(GroundLocation)"])
p("C28", "Astronomical quantities follow their published series",
  "At every instant the Earth rotation angle (280.46 + 360.9856123035484 d degrees), the five nutation angles (D, M, N, F, O, in that order), the nutations in longitude and obliquity, the precession angles (zeta, theta, z), mean and apparent obliquity, the equation of the equinoxes (1/15 nutation times the cosine of the true obliquity, both with nutation), the equation of time and the right ascension of the mean Sun equal the series in the documentation and the works it cites (Meeus; Soffel and Langhans) evaluated at that instant, not merely near J2000: rotation and nutation angles to 1e-7 degree, nutations to 1e-5 arcsecond, obliquity and precession to 0.01 arcsecond over 10000 years, equation of time to 2 ms and right ascension to 0.01 arcsecond. Rotation and nutation angles lie in [0, 360) degrees and right ascension in [0, 360). Each sample of an array has the value that instant has on its own, the shape of the input is kept, and the given quantity is not changed. The radius of curvature in the prime vertical is a / sqrt(1 - e^2 sin^2 latitude) of WGS84.",
  ["inputs"], "all instants within 1000 years of J2000 (obliquity and precession: 10000 years), scalar or array, and all latitudes",
  "Tests compare one textbook date per function with tolerances of the textbook's rounding; higher-order terms vanish near J2000 and a wrong one cannot be seen at one date.",
  [A], [("polynomials and trigonometric series in centuries since J2000", A)], ["values returned by celest.coordinates.astronomical_quantities"])
p("C29", "Printed forms say what the object is",
  "A unit prints its scale (unless it is 1), then its factors with positive power, or 1 if there are none, then after a slash those with negative power, every factor once, with the absolute value of its power unless that is 1, so that reading the text back gives the same unit; its dimension prints in the same way over L, T, A and D. This holds for every product, quotient and (also fractional) power, with nothing rounded. A unit's repr names its class around that text; a quantity prints its data and its unit. A ground location's repr shows the latitude, longitude and height in the units they were given and these units; windows print their times, duration, location and attitude, and a collection every one of its windows in order.",
  ["programs", "inputs"], "all unit expressions over the predefined units, all data, locations and windows",
  "Tests print single literal units and windows with one value each; a factor lost, merged or rounded in a longer product needs other expressions.",
  ["celest/units/display.py", "celest/units/core.py", "celest/units/quantity.py", C+"ground_location.py", E+"window_handling.py"],
  [("generate_compound_unit_string, get_dimension_string", "celest/units/display.py")], ["str and repr of the objects"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
