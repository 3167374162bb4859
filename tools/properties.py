"""The properties, the single source of properties.jsonl and MANIFEST.json (python3 tools/mk_manifest.py)."""
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mechanism, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a, "level_note": note})


P("C01", "Locations are canonical and denote the point the user gave",
  "Every longitude/latitude a user passes, in any accepted form (tuple, list, array, record array, mapping, collections of them), "
  "becomes a longitude in [-180, 180) and a latitude in [-90, 90] that denotes the same point of the sphere. Normalising twice "
  "changes nothing, order is kept, and what is not a location is rejected. Distances (metres), bearings and destinations (degrees) are those between "
  "exactly the points and the reference given, or the centre of a region where no reference is given.",
  ["inputs"], "every real longitude and latitude, including over-the-pole latitudes, multiples of a turn and every input container",
  "Range reduction has seams (poles, whole turns, over-the-pole reflection) that a sampled table of points misses.",
  ["cratermaker/utils/general_utils.py"],
  [("normalize_coords", "cratermaker/utils/general_utils.py"), ("validate_and_normalize_location", "cratermaker/utils/general_utils.py")],
  "Deductively verified for all reals (trigonometric identities as axioms); floats treated as reals.")

P("C02", "Random draws stay in their support and invert their distribution",
  "Every random quantity lies in its documented support for every state of the generator: locations on the sphere (uniform in area), "
  "impact angles in [0, 90] following sin(2*theta), directions in [0, 360), speeds at least the escape speed whenever the mean speed exceeds it, sizes "
  "inside the tabulated range and equal to the inverse of the cumulative table, points spread evenly over the face they are drawn for and never outside it. "
  "Malformed tables and bounds are rejected.",
  ["inputs", "histories"], "every value the underlying generator can return, every table, bound and face",
  "A test draws a few thousand deviates; the endpoints that break indexing or leave the support have probability near zero.",
  ["cratermaker/utils/montecarlo_utils.py"],
  [("get_random_location", "cratermaker/utils/montecarlo_utils.py"), ("get_random_impact_angle", "cratermaker/utils/montecarlo_utils.py"),
   ("get_random_impact_direction", "cratermaker/utils/montecarlo_utils.py"), ("get_random_velocity", "cratermaker/utils/montecarlo_utils.py"),
   ("get_random_size", "cratermaker/utils/montecarlo_utils.py"), ("bounded_norm", "cratermaker/utils/montecarlo_utils.py")],
  "Support and inversion are deductively verified with the generator's draws as arbitrary inputs; that the distributions have the right "
  "shape end to end, bounded_norm (scipy) and table lookups longer than the stated sizes are bounded checks.")

P("C03", "Identical seeds give identical results; the random source is honoured",
  "An object uses exactly the random source it is given for everything it draws: an explicit generator is shared and advanced, a saved state resumes where it stopped and "
  "takes precedence over a seed, and equal seeds give equal sequences of craters, projectiles and populations. Invalid seeds, "
  "generators and states are rejected.",
  ["inputs", "histories"], "every combination of generator, seed and state, and every history of draws before the state was saved",
  "Tests fix one seed and compare one draw; reproducibility must hold for every combination of sources and after any history.",
  ["cratermaker/core/base.py", "cratermaker/components/crater/__init__.py", "cratermaker/components/projectile/__init__.py",
   "cratermaker/components/production/__init__.py"],
  [("random source selection", "cratermaker/core/base.py:_rng_init"), ("rng/rng_seed/rng_state properties", "cratermaker/core/base.py")],
  "Source selection is deductively verified; end-to-end reproducibility of makers and samplers is a bounded check.")

P("C04", "One size fixes a crater: its size chain is complete and consistent",
  "A crater made from any single size (final, transient or projectile diameter or radius, or projectile mass) carries all the others, "
  "consistent with each other, with the scaling relations used and with the projectile's density, speed, angle and their vertical "
  "component, whether its surroundings are given by name or as objects. Redundant, missing, non-positive or contradictory inputs are rejected, and the identity of a crater depends on its physical "
  "description only.",
  ["inputs", "configurations"], "every positive size and impact condition, every way of specifying them",
  "The number of ways to specify a crater is combinatorial, and the relations must hold for all positive reals.",
  ["cratermaker/components/crater/__init__.py", "cratermaker/components/projectile/__init__.py"],
  [("crater construction", "cratermaker/components/crater/__init__.py:Crater.maker"),
   ("derived quantities", "cratermaker/components/crater/__init__.py:CraterFixed"),
   ("projectile for a crater", "cratermaker/components/projectile/__init__.py:Projectile.new_projectile")],
  "Deductively verified against the contracts of the scaling relations (C06); collision-freedom of identities is a bounded check.")

P("C05", "A crater's formation record never changes; measurements stay valid",
  "Once made, no assignment changes the formation record of a crater; measurements are kept separately and any sequence of them keeps "
  "the measured shape valid (major axis at least the minor one, both positive, radius their geometric mean, diameter twice that). A "
  "crater's description, or a copy of it, is an equal crater, and a copy given a new measurement differs in that only.",
  ["inputs", "histories"], "every crater and every sequence of measurements applied to it",
  "Validity must survive every order of assignments, including rejected ones; tests try a few orders.",
  ["cratermaker/components/crater/__init__.py"],
  [("read-only formation record", "cratermaker/components/crater/__init__.py:Crater.__setattr__"),
   ("measured properties", "cratermaker/components/crater/__init__.py:CraterVariable"),
   ("description", "cratermaker/components/crater/__init__.py:Crater.as_dict")],
  "The shape invariant is deductively verified as a data invariant of each setter.")

P("C06", "Scaling laws are positive, monotone and mutually inverse",
  "Projectile, transient and final sizes are related by positive relations that grow with size and with the vertical speed and density "
  "of the projectile; converting a size forward and back returns it. Crater type follows size relative to the "
  "transition diameter of the body, with probabilities in the transition range that sum to one and are continuous in size (certainly simple at half the nominal transition, transitional at it, complex at twice), and models without a random component draw nothing.",
  ["inputs", "configurations"], "every body, material, projectile, size and draw of the model's random constants",
  "The relations span fifteen decades and three regimes whose seams tests sample at a handful of points.",
  ["cratermaker/components/scaling/montecarlo.py", "cratermaker/components/scaling/ctem.py"],
  [("final/transient relation", "cratermaker/components/scaling/montecarlo.py:MonteCarloScaling.final_to_transient"),
   ("projectile/transient relation", "cratermaker/components/scaling/montecarlo.py:MonteCarloScaling.projectile_to_transient"),
   ("model constants", "cratermaker/components/scaling/montecarlo.py:MonteCarloScaling.recompute")],
  "Deductively verified over the reals; the scipy root finders carry an assumed contract (a zero inside the bracket).")

PROD = "cratermaker/components/production/"
P("C07", "Production functions are separable, additive in time and invertible",
  "The number of craters a production function predicts is a size-frequency shape times a chronology: never negative, additive over adjacent "
  "time windows, decreasing with size, equal to the published Neukum polynomials and chronology for the Moon and Mars and to the documented "
  "power law. Age, number and size can each be recovered from the others, every setting change takes effect, and requests outside the "
  "validity of the model are rejected.",
  ["inputs", "configurations"], "every diameter, age and window, both models, every version, and after every change of settings",
  "Values over ten decades of size and the whole of solar-system history have to agree; tests compare a few table entries.",
  [PROD + "__init__.py", PROD + "neukum.py", PROD + "powerlaw.py"],
  [("number predicted", PROD + "neukum.py:NeukumProduction.function"), ("shape", PROD + "neukum.py:NeukumProduction.csfd"),
   ("chronology", PROD + "neukum.py:NeukumProduction.chronology"), ("power law", PROD + "powerlaw.py:PowerLawProduction"),
   ("inverses", PROD + "__init__.py:Production.age_from_D_N")],
  "Deductively verified over the reals, root finders by assumed contract; the oracle is the published coefficient table.")

P("C08", "Sampled populations respect the requested window and size range",
  "However the window is specified (ages, start and end times, N(D) pairs, numbers of craters on an area), sampling uses exactly that window, "
  "size range and area: the expected number is what the production function accumulates there, every diameter lies in the range, every "
  "formation time lies in the window, and formation times follow the chronology. Contradictory or incomplete requests are rejected.",
  ["inputs", "histories"], "every window, range and area, every way of specifying them, every draw",
  "The specifications combine freely and each goes through its own inversion; tests sample two or three of them.",
  [PROD + "__init__.py"],
  [("request validation", PROD + "__init__.py:Production._validate_sample_args"), ("sampling", PROD + "__init__.py:Production.sample"),
   ("formation times", PROD + "__init__.py:Production.compute_time")],
  "Window, range and expected number are deductively verified with the size sampler by contract (C02); the drawn distribution is bounded.")

P("C09", "User-supplied craters are dated by their metadata and merged without loss",
  "Every user-supplied crater (given as a list or in a file) with dating metadata gets a formation time that agrees with it (exactly when it carries no uncertainty, never "
  "in the future, in the order of its sequence number) and random craters are kept smaller than the smallest of them. Merging with a random "
  "population over a window keeps every user crater of that window exactly once, drops only random craters outside it or replaced one for one "
  "by a user crater no larger, dates undated ones within the window, and returns the result oldest first.",
  ["inputs", "histories"], "every list of user craters with times, densities, uncertainties and sequence numbers, every population, every draw",
  "The merge depends on the joint order of two lists and on random dates; tests use one list.",
  [PROD + "__init__.py"],
  [("merge", PROD + "__init__.py:Production.quasimc_merge"), ("dating", PROD + "__init__.py:Production._process_quasimc_craters"),
   ("list assignment", PROD + "__init__.py:Production.quasimc_craters")],
  "Dating of single craters is deductively verified; merging is verified for all times and sizes of up to two and two craters (bounded) and on generated longer lists.")

P("C10", "A target body's properties are the requested ones and consistent",
  "A target's radius, mass, material, density and transition type are the ones the user gave, and otherwise the published ones of that body "
  "(surface density from the material); diameter, area, volume, circumference, gravity and escape velocity always follow from the current "
  "radius and mass. The catalogue itself is never altered, and incomplete, contradictory, non-positive or unknown bodies are rejected.",
  ["inputs", "configurations"], "every radius, mass and density, every subset of overrides, every catalogue body",
  "Overrides combine freely with the catalogue and mutate shared tables when mishandled; tests look at single overrides.",
  ["cratermaker/components/target/__init__.py", "cratermaker/utils/general_utils.py"],
  [("construction", "cratermaker/components/target/__init__.py:Target.__init__"), ("precedence", "cratermaker/utils/general_utils.py:_set_properties"),
   ("derived quantities", "cratermaker/components/target/__init__.py:Target")],
  "Deductively verified for all reals and every subset of overrides; the catalogue values are compared with a published table (bounded).")

P("C11", "Projectiles keep what was given and sample only the rest",
  "A new projectile keeps every value it was given, draws the others from its population's generator within their physical range (speed at "
  "least the escape speed of the target whenever the mean speed exceeds it), and draws nothing when sampling is off or all is given. Making one never alters the population "
  "it came from, whose mean speed is the published one for the body, and invalid values are rejected without effect.",
  ["inputs", "configurations", "histories"], "every subset of given values, every population and body, every draw",
  "Any subset of fields may be given and the draws are random; tests check single subsets for one seed.",
  ["cratermaker/components/projectile/__init__.py", "cratermaker/components/projectile/asteroids.py",
   "cratermaker/components/projectile/comets.py", "cratermaker/components/projectile/generic.py"],
  [("new projectile", "cratermaker/components/projectile/__init__.py:Projectile.new_projectile"),
   ("population choice", "cratermaker/components/projectile/__init__.py:Projectile.maker"),
   ("copy", "cratermaker/components/projectile/__init__.py:Projectile._copy")],
  "Deductively verified with the generator's draws as arbitrary inputs; mean speeds are compared with the published table (bounded).")

P("C12", "A run emplaces exactly the requested span once",
  "Simulation.run populates windows that tile the requested span from its start to its end without gap or overlap, however the span is given (age, "
  "time_start/time_end, N_D, diameter_number) and divided (one interval, time_interval, ninterval), saving once per interval; time, elapsed_time, elapsed_n1 and interval always agree with what "
  "was emplaced. A resumed run does only the rest, a complete one nothing, and contradictory requests are rejected without effect.",
  ["inputs", "histories", "crash points"], "every span and division into any number of intervals, every point of interruption",
  "The number of intervals is unbounded and a run can be resumed anywhere; tests run a few fixed divisions.",
  ["cratermaker/core/simulation.py"],
  [("run", "cratermaker/core/simulation.py:Simulation.run"),
   ("request", "cratermaker/core/simulation.py:Simulation._validate_run_args")],
  "Deductively verified by induction over the intervals (loop invariant, unbounded number of intervals), with populate and save under contract as recorders.")

P("C13", "Populate draws every part of the surface its share",
  "Simulation.populate draws the craters of the requested window once for every group of similarly sized faces: each group with its own area, its share of the expected number, "
  "and sizes from the smallest its faces can hold, within the size limits set, as craters or projectiles; the groups partition the faces and alike faces (within a factor of two in area) share one. Each crater lands on a face with chance proportional to area, "
  "keeps its own size, time and location, and they are emplaced oldest first. Given (quasi-Monte Carlo) craters are merged in for the same window.",
  ["inputs"], "every grid partition, window, production type and drawn sample",
  "Which faces, sizes and times are drawn is random and depends on the grid; tests only run a seeded uniform grid and look for absence of errors.",
  ["cratermaker/core/simulation.py", "cratermaker/components/surface/__init__.py"],
  [("populate", "cratermaker/core/simulation.py:Simulation.populate"), ("size limits", "cratermaker/core/simulation.py:Simulation._get_diameter_limit"),
   ("face groups", "cratermaker/components/surface/__init__.py:Surface._compute_face_bins")],
  "Deductively verified for arbitrary areas, sizes and windows on a three-face surface; the grouping itself is a bounded check (three faces, any areas within a factor eight).")

P("C14", "Each crater is emplaced once, in order, and its ejecta conserve volume",
  "Emplacing a list of craters forms every one of them exactly once; craters whose footprints overlap are formed in the order given, and only disjoint ones share a batch. A crater "
  "large enough for its face changes the elevation of its own region by its shape, then returns exactly the excavated volume as ejecta (never lowering the ground, recorded as ejecta thickness, "
  "older ejecta inside the rim removed first); one below the resolution, or that excavates nothing, lays down no ejecta. Recording and slope collapse happen as configured, and every tally of a queue with the options asked for.",
  ["inputs", "histories", "schedules"], "every crater shape and ejecta profile, every list of overlapping or disjoint craters",
  "Volume conservation must hold for every profile and the batching for every overlap pattern; tests emplace single craters.",
  ["cratermaker/components/morphology/__init__.py", "cratermaker/components/morphology/basicmoon.py"],
  [("form crater", "cratermaker/components/morphology/__init__.py:Morphology.form_crater"), ("form ejecta", "cratermaker/components/morphology/__init__.py:Morphology.form_ejecta"),
   ("queue", "cratermaker/components/morphology/__init__.py:Morphology.CraterQueueManager"), ("diffusion of ejecta", "cratermaker/components/morphology/basicmoon.py:BasicMoonMorphology.form_ejecta")],
  "Deductively verified for arbitrary shapes, areas and volumes; the queue's scheduling is a bounded check (every overlap pattern of up to four craters).")

P("C15", "Crater shapes, ejecta reach and degradation are physical at every size",
  "For every crater size and type the rim height, rim width, floor depth, floor diameter and peak height are of the right sign, lie inside the crater and grow with it, and a dimension that is given is kept. "
  "The reach of a feature is where its thickness falls to the minimum, never inside the rim nor beyond the truncation or antipode. Degradation by a crater is positive and grows with its size; "
  "degradation by unresolved craters is never negative, and over any division of a time span exactly the whole span's worth is applied, once; a reversed span is rejected.",
  ["inputs", "histories"], "every diameter, crater type, profile, production density and division of time",
  "Piecewise power laws change branch with size and accumulate over steps; tests evaluate a few sizes and single steps.",
  ["cratermaker/components/morphology/basicmoon.py"],
  [("dimensions", "cratermaker/components/morphology/basicmoon.py:BasicMoonCrater.maker"), ("reach", "cratermaker/components/morphology/basicmoon.py:BasicMoonMorphology.rmax"),
   ("degradation", "cratermaker/components/morphology/basicmoon.py:BasicMoonMorphology.degradation_function"),
   ("unresolved craters", "cratermaker/components/morphology/basicmoon.py:BasicMoonMorphology.compute_subpixel_degradation")],
  "Deductively verified; powers by monotonicity and bounds at anchor points, root finder and quadrature under assumed contracts, the profile kernels (Rust) by stand-ins.")

P("C16", "Edits of a surface region change exactly what was asked, there only",
  "Adding data, elevation, noise, diffusion or tags to a region of the surface changes exactly the faces and nodes of that region by exactly what was asked (adding or overwriting), and nothing else; "
  "data of the wrong size or a negative diffusivity are rejected without effect; noise moves no net volume. A region holds the faces within its radius, all faces touching them and their nodes, its views of "
  "data and connectivity name the same elements as the whole surface, and its longitude/latitude extents contain it.",
  ["inputs", "histories"], "every region, value, connectivity table and sequence of edits",
  "Index mapping errors only show for particular regions (as many nodes as faces, across poles or the date line); tests edit one region.",
  ["cratermaker/components/surface/__init__.py"],
  [("add data", "cratermaker/components/surface/__init__.py:LocalSurface.add_data"), ("elevation", "cratermaker/components/surface/__init__.py:LocalSurface.update_elevation"),
   ("region", "cratermaker/components/surface/__init__.py:Surface.extract_region"), ("connectivity", "cratermaker/components/surface/__init__.py:LocalSurface._remap_connectivity_to_local"),
   ("tags", "cratermaker/components/surface/__init__.py:LocalSurface.add_tag"), ("extents", "cratermaker/components/surface/__init__.py:Surface.get_location_extents")],
  "Edits are deductively verified for arbitrary values on a four-face surface; regions, connectivity, tags and extents are bounded checks on a real icosphere with generated centres and radii.")

P("C17", "A resumed simulation is the one that was saved",
  "A simulation started again in its directory has the settings it was given or assigned (target, production, projectile, scaling, morphology), its clocks, interval number, size limits, save actions and "
  "random stream; settings given again on resuming, and only those, replace the saved ones. The progress recorded in the configuration is never ahead of the surface and crater data saved, "
  "so a run that is interrupted at any point of a save, even in the middle of writing the configuration, resumes from a state that was complete, with the elevations and craters of that state.",
  ["inputs", "histories", "crash points"], "every value of every setting, every number of intervals, an interruption at every step of a save",
  "What is lost on resume depends on which setting was given how, and on where a run was interrupted; tests restart one default simulation.",
  ["cratermaker/core/simulation.py", "cratermaker/core/base.py", "cratermaker/utils/general_utils.py"],
  [("configuration written", "cratermaker/core/simulation.py:Simulation.to_config"), ("configuration read", "cratermaker/core/simulation.py:Simulation.__init__"),
   ("order of saving", "cratermaker/core/simulation.py:Simulation.save"), ("settings tracked", "cratermaker/utils/general_utils.py:Parameter"),
   ("surface data", "cratermaker/components/surface/__init__.py:Surface.save"), ("crater data", "cratermaker/components/counting/__init__.py:Counting.save")],
  "Settings, overriding and the order of saving are deductively verified (the latter by induction over the intervals); the files themselves are a bounded check (real runs interrupted at every step of their last save).")

P("C18", "Each saved interval reads back and is exported as it was saved",
  "What is saved for an interval (elevations, crater tags, craters emplaced and observed with all their properties, the times) reads back exactly, by interval number, and is exported and plotted as it was saved, "
  "however many intervals were saved, overwritten, read or exported since; reading and exporting change neither the files of other intervals nor the state in memory. "
  "A list of craters written to a netCDF or CSV file reads back with every property each crater has, and none that it does not have; a crater count file holds the measured diameters and locations of the craters asked for, and of a region the area and the part of each crater inside it; outlines and VTK files show each crater where it is and as large as it is; rasters and vector files show each face's saved value where the face is, of the whole surface or of a region.",
  ["inputs", "histories"], "every set of crater properties, every history of saves, reads and exports",
  "Which property is lost depends on what the other craters in the list have, and which interval is overwritten on the history; tests write one list once.",
  ["cratermaker/core/base.py", "cratermaker/components/crater/__init__.py", "cratermaker/components/counting/__init__.py", "cratermaker/components/surface/__init__.py"],
  [("flattening of a record", "cratermaker/components/crater/__init__.py:_convert_tuple_vars"), ("craters read", "cratermaker/components/crater/__init__.py:Crater.from_xarray"),
   ("craters written", "cratermaker/components/counting/__init__.py:Counting.save"), ("surface written", "cratermaker/components/surface/__init__.py:LocalSurface.save"),
   ("intervals read", "cratermaker/core/base.py:CratermakerBase.read_saved_output"), ("tables", "cratermaker/components/counting/__init__.py:Counting.to_csv_file"), ("crater count files", "cratermaker/components/counting/__init__.py:Counting.to_scc_file"),
   ("maps", "cratermaker/components/surface/__init__.py:LocalSurface.to_raster"),
   ("export", "cratermaker/components/surface/__init__.py:LocalSurface.export"),
   ("outlines and VTK files", "cratermaker/components/crater/__init__.py:Crater.to_geoseries"), ("plots", "cratermaker/components/counting/__init__.py:Counting.plot")],
  "The flattening of records is deductively verified; the files themselves (netCDF, CSV, VTK libraries) are a bounded check with generated craters and histories.")

P("C19", "Files are removed or overwritten only with consent, and only its own",
  "Resetting a component or a simulation, and exporting onto existing files, removes or overwrites a file only when asking is turned off or the user agrees to it; a refusal keeps that file and everything not yet "
  "agreed to, leaves the state in memory as it was, and a refused reset is reported as an error. 'All' holds for that operation only: the setting itself never changes, not even by an operation that fails. Files that are not the component's own output, "
  "the grid and the configuration included, are never touched by a reset or export; a new simulation in an old directory keeps the old run unless told to reset; cleaning up removes only the configuration and component directories.",
  ["inputs", "histories"], "every set of existing files, every sequence of answers, asking on or off",
  "Data loss needs a particular answer at a particular prompt, or a file of the user's beside the output; tests always turn asking off.",
  ["cratermaker/core/base.py", "cratermaker/core/simulation.py", "cratermaker/components/surface/__init__.py", "cratermaker/components/counting/__init__.py", "cratermaker/utils/general_utils.py"],
  [("question", "cratermaker/core/base.py:CratermakerBase._overwrite_check"), ("reset", "cratermaker/core/base.py:CratermakerBase.reset"), ("reset of everything", "cratermaker/core/simulation.py:Simulation.reset"),
   ("reset of counts", "cratermaker/components/counting/__init__.py:Counting.reset"), ("export", "cratermaker/components/counting/__init__.py:Counting.export"), ("clean up", "cratermaker/utils/general_utils.py:cleanup")],
  "The question and what follows its answer are deductively verified (every path, lists of up to three files); resets, exports and cleaning up on real files are bounded checks.")

P("C20", "The craters counted are those still visible on the surface",
  "A crater is counted from the moment it is emplaced until its degradation reaches the limit of visibility for its size, or newer craters have erased its rim; tallying removes exactly those craters, from the "
  "list and from the surface, and no other. A new crater erases only smaller craters, and only where they lie inside its rim; one with too few faces to be resolved is neither counted nor erases others. A crater with a deeper remaining depression is never judged more degraded, "
  "larger craters stay visible to higher degradation, and a measured rim is recorded as measured (axes, orientation, centre), whatever was measured before. The tally of a region looks at that region only.",
  ["inputs", "histories"], "every degradation, depth and size, and every history of additions, removals and tallies",
  "Which craters survive depends on the order of emplacement and overlap; tests count one crater or none.",
  ["cratermaker/components/counting/__init__.py", "cratermaker/components/counting/depthcount.py", "cratermaker/components/surface/__init__.py"],
  [("tally", "cratermaker/components/counting/__init__.py:Counting.tally"), ("recording", "cratermaker/components/counting/__init__.py:Counting.add"),
   ("degradation", "cratermaker/components/counting/depthcount.py:DepthCount.measure_degradation_state"), ("visibility", "cratermaker/components/counting/depthcount.py:DepthCount.visibility_function"),
   ("rim", "cratermaker/components/counting/__init__.py:Counting.fit_rim"), ("marks", "cratermaker/components/surface/__init__.py:LocalSurface.remove_tag")],
  "Tally, recording, rim and laws are deductively verified on a fixed real surface with arbitrary craters; the measuring kernels (Rust) are stand-ins returning arbitrary numbers; histories on a real surface are bounded.")

P("C21", "Save actions are carried out at every save with their own options",
  "A component's save actions - the surface's, the counting's and the simulation's alike - are carried out at every save of that component, each once and in the order of the list, after its data are written, with "
  "exactly the options given to the action (arguments of the save take precedence) and for the interval being saved; nothing of one save is carried over to the next. They are skipped only when save is told to. "
  "A list naming something the component cannot do, or giving options that are not keyword arguments, is refused and the list stays as it was. Adding an action appends it to that component's list alone and "
  "leaves the list the user gave unaltered. The actions are part of the saved state: a resumed simulation carries out the same ones.",
  ["inputs", "histories"], "every list of actions, set of options, interval, and sequence of saves",
  "Tests count the output files of one run with one action per component; an action dropped, repeated, run with the options or the interval of another save, or lost at a resume, shows only in particular lists and histories.",
  ["cratermaker/core/base.py", "cratermaker/core/simulation.py", "cratermaker/components/surface/__init__.py", "cratermaker/components/counting/__init__.py"],
  [("carried out", "cratermaker/core/base.py:CratermakerBase.save"), ("added", "cratermaker/core/base.py:CratermakerBase.add_save_action"), ("validated", "cratermaker/core/base.py:CratermakerBase.save_actions"),
   ("simulation", "cratermaker/core/simulation.py:Simulation.save"), ("surface", "cratermaker/components/surface/__init__.py:Surface.save"), ("counting", "cratermaker/components/counting/__init__.py:Counting.save")],
  "Dispatch, adding and refusal are deductively verified (every path, arbitrary options and intervals; lists of up to three entries); saving a whole simulation, resuming it and the default plot are bounded checks on real files.")
