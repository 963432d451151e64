#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code only so that long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **anch):
    mech = [dict(name=mech, where=', '.join(files))]
    anch = {k: [dict(name=v, where=', '.join(files))] if k == 'state' else [v] for k, v in anch.items()}
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech, **anch)))

NUM = ["newt/glib.py","newt/glibShapes.py","newt/gShapeGL.py","newt/pg2Multi.py","newt/qlm.py","newt/qlmACH.py",
       "newt/qlmNum.py","newt/bigQlm.py","newt/bigQlmNum.py","newt/rotations.py","newt/translations.py",
       "newt/translationRecurs.py","newt/multipoleLib.py","newt/clebschGordan.py","newt/read_multiFor.py"]

OCT = ["matlab-src/" + f for f in ("pointMatrixGravity.m", "translatePMArray.m", "rotatePMArray.m", "scanToPMArray.m", "scatterPMMassesYZGrid.m",
       "scanCenterAndRemoveLinear.m", "computeMoments.m", "computeMomentSummary.m", "Gmmr2Array.m", "YLM.m", "fundamentalConstants.m", "displayPoints.m")]
OCT += ["matlab-src/shapes/genPointMass%s.m" % f for f in ("ArrayFrom2DArray", "AnnlSheet", "XRing", "Line", "Rect", "RoundXSheet", "RandomDisk", "RandomRectangle", "SphericalRandomShell")]

p("C01","Calls made at the same time from several threads never influence each other",
  "When several threads of one program use the toolkit at once, every call returns (or raises) what the same call does on its own, whatever the interleaving of their steps. This stays true when some of the calls are interrupted or fail part-way, and no call is left blocked for ever once the scheduler keeps running it. It holds as well for threads that each build, move, combine and save bodies of their own. When all threads have ended, the settings of the process are as they were.",
  ["schedules","fault_sequences"],
  "every interleaving of any mix of moment, rotation, translation, point-force, torque, shape-building and file-reading calls, and of histories of bodies of one's own, made by two or more caller threads, with any subset of the calls aborted at any step",
  "The tests are strictly single-threaded; one interleaving (none) is sampled, and an interleaving-dependent corruption of a shared buffer, cache or setting passes all of them.",
  NUM + ["newt/shapes.py", "newt/genCAD.py"], "every routine works only on locals and freshly allocated arrays; there is no module-level mutable state",
  observe_at="return value / exception of each call compared with the same call alone in a fresh process")
p("C02","Arguments are never modified and results belong to the caller",
  "A call never changes any array, list or other data its caller passed in. A returned array belongs to the caller alone: editing a result, or editing an argument after the call, changes no other value the caller holds and no later result, also for trivial operations such as a zero shift or a zero rotation.",
  ["histories","inputs"],
  "every sequence of calls whose arguments are values made earlier in the sequence (shared, re-used, read-only, non-contiguous, integer, one-dimensional or just freed), interleaved with in-place edits by the caller",
  "Tests build fresh arguments for every call and compare one result; aliasing only shows when a later edit or call follows, in a particular order, on a particular special value.",
  NUM, "copies at the start of in-place algorithms; fresh zero arrays for outputs; zero translations return a copy",
  observe_at="all values held by the caller, compared bit for bit after every step")
p("C03","A failed or interrupted call leaves no trace",
  "A call that ends by an exception - an interrupt or an out-of-memory error at any point inside it, unusable arguments, or output that cannot be written - leaves the caller's data and the process-wide numerical, random and output settings as they were. Repeating that call, or making any other call afterwards, gives what a fresh process gives.",
  ["fault_sequences","crash_points","histories"],
  "every point inside every call at which an exception can arrive, every failing write to standard output, and every later sequence of calls",
  "No test aborts a call; crash points inside the numerical loops, and what a call after the abort sees, are never reached.",
  NUM, "no state outlives a call; nothing is modified in place; no global setting is changed",
  observe_at="argument values, process settings, and the results of the retried and following calls")
p("C04","A result depends only on the arguments, never on what happened before",
  "The same call with the same arguments gives the same result at any moment of a process's life: after any number of other calls with equal, nearly equal or unrelated arguments, of other sizes, types and orders, at any time, for any random-generator state and hash seed. A completed call leaves process-wide numerical, random, warning and output settings as they were, except that routines that draw random numbers advance the random generator.",
  ["histories","configurations"],
  "every history of calls before a call, every clock reading, random-generator state, hash seed and working directory at the time of the call",
  "Each test makes one or a few calls with unrelated arguments in a fixed order; state that builds up (memoised tables, growing buffers, remembered degrees) needs a history with near-duplicates or many distinct sizes to matter.",
  NUM, "absence of memoisation and of global settings changes",
  observe_at="result of each call in the history compared with the call alone in a fresh process; snapshot of process settings around each call")
p("C05","Moment files load exactly as recorded however the bytes are delivered",
  "Loading an inner or outer moment file gives, for every degree and order, the recorded coefficient (inner ones converted from centimetre-gram to metre-kilogram units), with negative orders filled in by conjugate symmetry. This holds for every degree, every way the operating system splits or delays the bytes, with or without the file-name extension, and for any number of files read before.",
  ["fault_sequences","inputs","histories"],
  "every moment file (any degree, values, number formats, line endings, header text), every split of its bytes into short reads and every interruption of a read, every sequence of loads",
  "The tests read one or two small fixed files delivered in one piece.",
  ["newt/read_multiFor.py"], "line-wise reader that fills a triangular table and mirrors it", observe_at="returned table versus an independent parse of what was written")
p("C06","An incomplete or unreadable moment file is never accepted as complete",
  "If a moment file cannot be read in full - it lacks some of the coefficient records its declared degree calls for, a read fails, or it is cut short while being read - loading raises an error and never returns moments with the missing part silently taken as zero. A file replaced during the load gives either the old or the new content, and once the fault is gone the load gives the correct moments.",
  ["crash_points","fault_sequences"],
  "every prefix of a moment file that lacks at least one coefficient record, every read operation that fails or sees the file truncated or replaced, at every point of the load",
  "Tests never read a torn file or inject an I/O error.",
  ["newt/read_multiFor.py"], "the number of coefficient records read is checked against the declared degree", observe_at="exception or returned table for each injected fault")
p("C07","A mass-description script yields the moments of exactly the body it describes",
  "Running a mass-description script gives the moments of the body obtained by carrying out its commands in order on two registers: create, rotate, translate and load act on the working part only, add accumulates the working part into the total, and zero, get-total and put-total clear or copy registers without linking them. Unit changes apply to the following lengths only, comments have no effect, an unknown shape is skipped together with what is done to it up to the next create, and a component file is taken from the companion moment folder.",
  ["programs","histories"],
  "every command sequence (any length, order, units, shapes, angles, shifts, loads and register copies) and every state the two registers can reach",
  "Tests run a few short scripts; register linking, unit changes, repeated adds after further moves, and loads in the middle of a history are combinations they never form.",
  ["newt/read_multiFor.py","newt/qlm.py","newt/qlmACH.py","newt/rotations.py","newt/translations.py"],
  "a line interpreter with a working and a total table and a current length unit", observe_at="returned table versus an independent reference interpreter that integrates the described bodies numerically")
p("C08","Script runs fail cleanly on missing, unreadable, torn or mismatched files",
  "If the script or a component it loads cannot be opened or read, the script ends inside a create command, or a component lacks coefficient records or has a degree other than the requested one, running the script raises an error and never returns the moments of part of the body. A fault affects only that run: the files stay unchanged and the next run, once the fault is gone, returns the correct moments.",
  ["fault_sequences","crash_points"],
  "every I/O operation of a script run (open, each read, of the script and of every component) failing, being cut short, or finding the file missing or replaced, in every combination over a sequence of runs",
  "Tests only run scripts whose files all exist and read cleanly.",
  ["newt/read_multiFor.py"], "errors propagate; loaded tables are checked against the requested degree", observe_at="exception or returned table for each run of a faulted history")
p("C09","A body's moments, mass, centre of mass and CAD model describe one body",
  "After any history of building, rotating, moving, combining and converting (inner to outer) bodies, a body's mass, its moments, its recorded centre of mass and its CAD model all describe one and the same rigid mass distribution: the one obtained by applying that history to the parts.",
  ["histories"],
  "every sequence of constructions, rotations, translations, combinations and inner-to-outer conversions over any set of bodies",
  "Tests construct single bodies and apply at most one operation; an order, sign or frame error between the four views cancels or is invisible until operations are chained.",
  ["newt/shapes.py","newt/genCAD.py","newt/rotations.py","newt/translations.py","newt/qlm.py","newt/bigQlm.py"],
  "each operation updates moments, centre of mass and mesh together", state="body attributes: moments (inner/outer), mass, centre of mass, mesh")
p("C10","A failed operation on a body changes nothing",
  "If an operation on a body fails - the CAD layer or the numerical layer reports an error, an argument is unusable, or the requested conversion is impossible - the body and every other body involved keep the moments, mass, centre of mass and CAD model they had. Repeating the operation after the fault is gone gives the same outcome as if it had never failed.",
  ["fault_sequences","crash_points","histories"],
  "every call into the CAD or numerical layer made by every body operation failing, in every history of operations",
  "Tests never make a sub-step of an operation fail.",
  ["newt/shapes.py","newt/genCAD.py"], "new values are all computed before any is stored", observe_at="all attributes of all bodies before and after the failed operation, and after the retry")
p("C11","Saving a body is acknowledged only when its files are completely written",
  "When saving a body returns normally, the named model file and its companion moment file hold the complete CAD model and the moments of that body at that time - even if the process is killed right afterwards, whether or not older files were there, and whatever other bodies other processes save under other names meanwhile. If either file cannot be written completely (missing folder, full disk, write error) the caller gets an error; a save never changes the body or any other file, and a repeated save succeeds once the fault is gone.",
  ["crash_points","fault_sequences","histories"],
  "every open, write and close of a save failing or being cut short, the process killed at every point, over every history of body operations and saves",
  "The tests never save a model to disk under a fault, nor read one back.",
  ["newt/shapes.py","newt/genCAD.py"], "export of the compound mesh to a file, with the exporter's status checked", observe_at="save outcome, file bytes parsed back, body attributes")
p("C12","The random shell has the right mass and radius for every random stream",
  "For every stream of random numbers the generator can deliver, a random point-mass shell with N >= 1 requested points has at least one point, every point lies on the sphere of the requested radius, all points have equal mass, and the masses add up to the requested mass; a shell of many points is spread evenly over the sphere. Only the random generator's own state is changed.",
  ["schedules","inputs","histories"],
  "every state of the random generator, including streams in which almost all draws are rejected, and every N, mass and radius",
  "The tests draw from a few ordinary streams with large N, where the rejection step never empties the set.",
  ["newt/glibShapes.py"], "rejection sampling from the cube followed by normalisation", observe_at="returned point array")
p("C13","The Octave random shapes conserve mass and stay inside for every random stream",
  "For every stream of random numbers, the Octave random disk, rectangle and spherical-shell routines put every point inside (or, for the shell, exactly on) the requested shape. The disk and rectangle have exactly the requested number of points, each of the requested mass; the shell has at least one point when at least one is requested, all of equal mass, adding up to the requested mass. Shapes of many points are spread evenly.",
  ["schedules","inputs"],
  "every random stream, including adversarial ones near 0 and 1 or with long rejection runs, and every size and point count",
  "The Octave self tests use one ordinary stream with large counts.",
  ["matlab-src/shapes/genPointMassRandomDisk.m","matlab-src/shapes/genPointMassRandomRectangle.m","matlab-src/shapes/genPointMassSphericalRandomShell.m"], "rejection sampling, equal mass per accepted point", observe_at="returned point matrix")
p("C14","Separate bodies never share state",
  "Building, rotating, moving, combining, converting or saving one body, or editing its stored arrays in place, never changes another body: not its moments, mass, centre of mass or CAD model, also after the two have been combined or one has been added to itself. The lists and vectors passed to an operation are left unchanged.",
  ["histories"],
  "every sequence of operations and in-place edits over any number of bodies, including combining a body with itself and re-using a body in several combinations",
  "Tests use one body at a time.",
  ["newt/shapes.py","newt/genCAD.py"], "each operation allocates new tables, vectors and compounds", state="attributes of all live bodies", observe_at="all other bodies' attributes and meshes after each operation")

p("C15","Imports work in any order, from any thread and after a failed import",
  "Whatever parts of the package are imported, in whatever order and form, from several threads that all begin with the package, and again after an import that failed or was interrupted half-way, every import that returns gives the complete module: its names, constants and functions are those of the module imported alone in a fresh process, and calls give the same results. Importing changes no process-wide setting, prints nothing and draws no random number.",
  ["schedules","fault_sequences","crash_points","histories"],
  "every order, form and repetition of imports of the package and its parts, every interleaving of threads importing it, and every line of a module at which its import can fail, including sources that cannot be read",
  "The tests import every part once, in one order, in one thread, and no import ever fails.",
  NUM + ["newt/__init__.py", "newt/constants.py", "newt/shapes.py", "newt/genCAD.py"], "modules define functions and constants only and import each other as plain modules", observe_at="names and values of the imported modules, results of calls, process settings, standard output")
p("C16","Octave calls depend only on their arguments and leave the session as it was",
  "An Octave routine called with the same arguments (a random shape: with the same random-generator state) gives the same result at any moment of a session: after any other calls, after calls that failed or ran out of memory, in any folder, output format, warning state and random state, and whatever the caller's global variables. A call, also one that fails, leaves the caller's variables, stopwatch, globals and session settings as they were; only random shapes and the random-subset display advance the uniform generator.",
  ["histories","fault_sequences","configurations"],
  "every history of calls of the Octave routines in one session, with any call failing at any step, and every session setting at the time of the call",
  "Each Octave self test calls one routine in a session of its own, and no call ever fails.",
  OCT, "functions work on their own locals; no global or persistent variables", observe_at="results, caller variables, globals and settings of the session before and after each call")
p("C17","Octave displays show only their own points, for every random stream",
  "Every Octave display of two point sets draws each set in its own colour and shows only points of that set, each at most once and at its own place, and nothing of an earlier display. The plain display shows every point. The random-subset display, for every stream of random numbers, shows every point for the fraction one and none for zero, and of large sets about the requested fraction, evenly taken. The sets are left unchanged.",
  ["schedules","inputs","histories"],
  "every random stream, every two point sets and every fraction, in every sequence of displays of both kinds",
  "No test looks at a figure.",
  ["matlab-src/displayPointsRandomSubset.m","matlab-src/displayPoints.m"], "one uniform draw per point compared with the fraction", observe_at="points and colours of the line objects of the figure")
p("C18","Direct CAD models follow their history and never change one another",
  "Working with CAD models directly - making parts, turning, moving, summing with holes, saving one or a list - every operation gives a model of its own: the solid obtained by applying the same history to its parts, marked solid or hole as asked, whatever was made before. It changes no other model and no list or vector it was given. An operation that fails or is interrupted changes nothing and, repeated, gives what it would have given; a save that returns left the complete file, otherwise it raises.",
  ["histories","fault_sequences"],
  "every history of part making, turning, moving, summing and saving, with any call into the CAD kernel, any source line or any disk operation failing",
  "The tests make bodies, and look at one model at a time; no CAD or disk call ever fails.",
  ["newt/genCAD.py"], "each operation returns a new model built from shapes of its own", state="shape, mark and placement of all live models", observe_at="volume, centre and moments of inertia, mark and children of all models; files on disk")
p("C19","A display shows all its points in a figure of its own",
  "Each call of the Python display makes a new figure that contains the returned axes and shows every point with mass of both sets exactly once and at its place, the sets and the signs of mass told apart, with sizes in proportion to mass if requested. Figures made before, the given arrays, and the settings of matplotlib and of the process stay as they were - whatever figures exist, whatever was displayed before, and whatever displays failed or were interrupted.",
  ["histories","fault_sequences"],
  "every history of displays and of the caller's own work with figures, with any display failing at any source line or at any call into matplotlib",
  "No test looks at a figure, and no display fails.",
  ["newt/glib.py"], "a new figure per call, drawn by four scatters", state="pyplot's figures and settings", observe_at="artists and drawn pixels of the new figure; all other figures; settings")

def n(id, title, statement, qtext, why, files, mech):
    p(id, title, statement, ["inputs"], qtext, why, files, mech)
n("N01","Point-mass forces follow Newton's law and its Yukawa modification",
  "The force and torque between two sets of point masses equal the sum of the pairwise inverse-square (or screened) attractions, opposite for the two partners, for every pair of point sets.",
  "every pair of point sets","tests sample a few configurations",["newt/glib.py"],"vectorised pair sums")
n("N02","Closed-form moments of solids equal the defining integrals",
  "For every solid the toolkit offers, every set of dimensions, mass and degree, the returned inner or outer moments equal the integral that defines them.",
  "every dimension, angle, mass and degree","tests compare a few sizes with point clouds",["newt/qlm.py","newt/qlmACH.py","newt/qlmNum.py","newt/bigQlm.py","newt/bigQlmNum.py"],"recursions and closed forms")
n("N03","Rotating moments equals rotating the body",
  "Rotating a moment table by any Euler angles gives the moments of the rotated body; rotations compose and invert as a group and keep each degree's norm.",
  "every table, degree and angle triple","tests sample a few angles",["newt/rotations.py"],"Wigner matrices by recursion")
n("N04","Translating moments equals translating the body",
  "Translating inner or outer moments, or converting inner to outer, by any admissible vector gives the moments of the displaced body, and the two implementations agree.",
  "every table, degree and displacement","tests sample a few vectors",["newt/translations.py","newt/translationRecurs.py"],"addition theorems")
n("N05","Multipole force and torque agree with direct summation",
  "For bodies that do not overlap, the multipole force and torque converge to the point-sum force and torque as the degree grows.",
  "every pair of separated bodies","tests sample a few geometries",["newt/multipoleLib.py"],"sums over degree and order")
n("N06","Discretised shapes have the requested mass and lie inside the shape",
  "Every deterministic point-cloud shape has total mass equal to the requested one and all points inside the requested solid, for every size and grid count.",
  "every size and grid count","tests sample a few sizes",["newt/glibShapes.py","newt/gShapeGL.py"],"grids and quadrature nodes")
n("N07","Coupling coefficients satisfy the selection rules and orthogonality",
  "The coupling coefficients of angular momenta vanish unless the selection rules hold and are orthonormal, for all admissible integers.",
  "all admissible quantum numbers","tests sample small values",["newt/clebschGordan.py"],"Racah formula")
n("N08","The Octave and Python implementations agree",
  "The Octave routines and their Python counterparts give the same forces, moments and shapes for the same deterministic inputs.",
  "every input","the suites run separately",["matlab-src","newt/glib.py"],"two implementations of the same formulas")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
