import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    anchors={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: anchors["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: anchors["observe_at"]=observe
    anchors["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":anchors})

p("C01","Event rates always match the current occupation, whatever hops came before",
"After any sequence of accepted hops the rate the simulator holds for every event in the library equals the rate the model gives for that event when it is evaluated from scratch on the current occupations, and the cumulative rates used for selection are the running sums of those rates. This holds for event libraries built in memory and for ones reloaded from file, and for every kind of rate model whose rates depend on an event's own endpoint and local-environment sites, and for local-barrier rules over any sites.",
["histories","inputs","configurations"],"all event libraries, initial occupations, rate models and hop histories",
"Tests update a fixed NASICON system a handful of times and compare final numbers; a dependency missed for one overlap pattern, or a stale rate that only matters after a specific pair of hops, gives plausible numbers.",
["kmcpy/simulator/kmc.py","kmcpy/event/base.py","kmcpy/models/local_barrier_model.py"],
[("re-evaluation of dependent events after a hop","kmcpy/simulator/kmc.py KMC.update"),("event dependency matrix","kmcpy/event/base.py EventLib.generate_event_dependencies")],
[("prob_list / prob_cum_list","rate and cumulative rate of every event","kmcpy/simulator/kmc.py")],["KMC.prob_list, KMC.prob_cum_list after KMC.update or during KMC.run"])
p("C02","Events are drawn in proportion to their rates, with exponential waiting times",
"During a run each step picks an event with probability equal to its rate divided by the total rate, never picks an event whose rate is zero, and advances the clock by an independent exponentially distributed time whose mean is one over the total rate. Consequently the time-weighted occupation of a small system converges to the stationary distribution of the corresponding rate matrix.",
["inputs","schedules","configurations"],"all rate tables (including widely spread and zero rates) and random seeds",
"Tests compare a run with one seed against stored numbers; a biased or off-by-one selection, a zero-rate pick or a wrong time law is only visible in the distribution over many draws and rate tables.",
["kmcpy/simulator/kmc.py"],[("rejection-free selection","kmcpy/simulator/kmc.py KMC.propose / _propose"),("clock","kmcpy/simulator/state.py State.apply_event")],
None,["sequence of states and times seen by a property callback sampled every step"])
p("C03","A hop moves one mobile ion into a vacant endpoint and changes nothing else",
"Every accepted hop takes the mobile species from one endpoint of the event to the other, which was vacant, and leaves all other sites unchanged; so the number of sites carrying each species is conserved and every site only ever holds a state defined for that site, for any per-site ordering of the allowed species. Each hop advances the step counter by one; production hops add a positive waiting time and equilibration hops add none.",
["histories","inputs","configurations"],"all site mappings (any order and number of states per site), occupations and run lengths",
"Tests use one site mapping in which every mobile site lists its species in the same order and check end-of-run totals.",
["kmcpy/simulator/state.py","kmcpy/event/hop.py","kmcpy/simulator/kmc.py"],[("endpoint direction from per-site state codes","kmcpy/event/hop.py"),("state transition","kmcpy/simulator/state.py State.apply_event")],
[("occupations/time/step","mutable simulation state","kmcpy/simulator/state.py")],["State.occupations/time/step after each step"])
p("C04","Tracked displacements, hop counts and ion positions follow the actual trajectory",
"At any point of a run the tracker's site of every mobile ion is where that ion really is, its hop count is the number of hops that ion made since tracking began, and its displacement is the sum of the minimum-image vectors of those hops in Cartesian coordinates, so that initial position plus displacement always equals the current position modulo lattice vectors. This holds across periodic boundaries, for non-orthogonal cells, either hop direction and after equilibration.",
["histories","inputs","configurations"],"all lattices, site sets, hop histories and equilibration lengths",
"Tests check aggregate quantities of a single seeded run; a wrong sign, wrong image or swapped identity for one hop class leaves them plausible.",
["kmcpy/simulator/tracker.py","kmcpy/event/hop.py"],[("per-hop bookkeeping","kmcpy/simulator/tracker.py Tracker.update")],
[("displacement, hop_counter, mobile_ion_specie_locations","per-ion trajectory","kmcpy/simulator/tracker.py")],["Tracker.displacement, Tracker.hop_counter, Tracker.mobile_ion_specie_locations"])
p("C05","Reported transport quantities equal their physical definitions",
"Every reported sample equals, in the documented units, the definition evaluated on the trajectory since tracking began, at that moment: mean squared displacement, jump and tracer diffusivity, Nernst-Einstein conductivity, Haven ratio and the per-ion averaged correlation factor. Quantities that are undefined (no elapsed time, no mobile ions, zero jump diffusivity) are reported as NaN rather than a number, and disabling a quantity makes only that quantity NaN.",
["inputs","configurations","histories"],"all displacement/hop-count data, times, dimensions, charges, temperatures, cell volumes and enabled subsets",
"Tests pin a few examples; unit factors, dimension factors and edge cases must hold for every combination of parameters.",
["kmcpy/simulator/property.py","kmcpy/simulator/tracker.py","kmcpy/units.py"],[("transport formulas","kmcpy/simulator/property.py compute_transport_properties"),("sampling","kmcpy/simulator/tracker.py Tracker.sample_properties")],
None,["Tracker.results, Tracker.return_current_info, compute_transport_properties"])
p("C06","A seeded run is reproducible and not perturbed by observation",
"Two runs built from the same inputs and the same random seed give identical trajectories, clocks, samples and final states, and the result does not depend on which properties are sampled, how often, which callbacks are attached, or on other use of random numbers in the process. Running a simulation modifies neither the configuration nor the inputs it was built from, and without a seed (or with different seeds) the runs differ.",
["schedules","configurations","histories"],"all systems, seeds and sampling plans",
"A fixed-seed test detects a change of one stream; it cannot show independence of the trajectory from every sampling plan and ambient random state.",
["kmcpy/simulator/kmc.py","kmcpy/simulator/tracker.py","kmcpy/simulator/config.py"],[("per-run generator","kmcpy/simulator/kmc.py KMC.run")],
None,["per-step occupations and times, Tracker results"])
p("C07","Properties are sampled exactly on schedule and stored as documented",
"A built-in or attached property is evaluated after exactly those steps where its step interval divides the step number or at least its time interval has elapsed since its own previous evaluation (or since time zero), using its own schedule where given and the global one otherwise (default: every pass, a pass being as many hops as there are active sites of the mobile element); it receives the current state, step and time. Records hold step, time and value in order, are limited to the newest requested number, are absent for disabled or non-stored properties, and a failing callback stops the run unless its error handler says to continue. Callbacks may be attached, detached, enabled or disabled at any time, also from a callback while a run goes on: a detached or disabled callback is not called again and a detached one leaves no records, and the others keep their schedule.",
["schedules","configurations","histories"],"all combinations of global/own step and time intervals, record limits, toggles, failures and run lengths",
"Tests fix one schedule at a time; the interaction of step and time triggers, per-property overrides, failures and toggles over a run is combinatorial.",
["kmcpy/simulator/property.py","kmcpy/simulator/tracker.py","kmcpy/simulator/kmc.py"],[("trigger rule","kmcpy/simulator/property.py should_trigger"),("dispatch","kmcpy/simulator/tracker.py Tracker.sample_properties")],
None,["calls received by attached callbacks, Tracker.get_property_records, Tracker.results"])
p("C08","Composite model rates obey Arrhenius and detailed balance",
"For every state and event the composite model's rate is zero when no hop is possible and otherwise attempt frequency times exp(-(E_KRA + dE/2)/kT), with dE the site-energy difference taken in the direction in which the hop would run now. Hence the ratio of the forward rate to the rate of the reverse hop in the resulting state is exp(-dE/kT) whenever E_KRA is the same for both.",
["inputs","configurations"],"all fitted local cluster expansions, site-energy models, temperatures, frequencies, occupations and hop directions",
"Tests evaluate a couple of fixed events; the direction sign and the one-half factor only show up in the relation between forward and reverse rates over many states.",
["kmcpy/models/composite_lce_model.py","kmcpy/event/hop.py"],[("rate expression","kmcpy/models/composite_lce_model.py CompositeLCEModel.compute_probability")],
None,["CompositeLCEModel.compute_probability"])
p("C09","Local cluster expansion energies equal the explicit cluster sum",
"A local environment consists of every active site, periodic images included, closer than the cutoff to its centre, without the centre itself when that is excluded. A local cluster expansion contains exactly the point, pair, triplet and quadruplet clusters of its local environment whose longest distance is below the requested cutoff, grouped so that two clusters share an orbit exactly when they are congruent with the same species arrangement. Its value for an event is the constant plus, for every correlation feature, coefficient times the sum over the orbit's clusters of the product of the site basis functions (Chebyshev or occupation) at the current states, and depends on no site outside the event's local environment.",
["inputs","configurations"],"all local environments, cutoffs, bases, coefficients and occupations",
"Tests compare one stored model's numbers; grouping and truncation errors for other geometries or multi-state sites are invisible to it.",
["kmcpy/models/local_cluster_expansion.py","kmcpy/structure/cluster.py","kmcpy/structure/basis.py"],[("cluster and orbit construction","kmcpy/models/local_cluster_expansion.py LocalClusterExpansion.build"),("correlation functions","kmcpy/models/local_cluster_expansion.py _calc_corr_decorated")],
None,["LocalClusterExpansion.orbits, .compute, .get_corr_from_structure"])
p("C10","Local-barrier rules select the documented barrier and rate",
"For every rule table, state and event the barrier is that of the first rule, in order, that matches (constant, state count, species count, wildcard pattern or exact entry over the documented site selections), otherwise the default, otherwise an error; invalid rules are rejected when they are added. The rate is attempt frequency times exp(-barrier/kT) when the hop is possible and zero otherwise, and is unchanged by saving and reloading the model.",
["inputs","programs","configurations"],"all rule tables (every rule type, selector, alias and count constraint), occupations and events",
"Tests cover each rule type once; rule precedence, selector and count interactions form a small language whose semantics need a reference interpreter.",
["kmcpy/models/local_barrier_model.py"],[("rule matching","kmcpy/models/local_barrier_model.py LocalBarrierModel.compute")],
None,["LocalBarrierModel.compute / compute_probability / as_dict / from_file"])
p("C11","Saving and reloading a model preserves every rate it produces",
"A local cluster expansion, its fitted parameters and parameter history, a composite model, a site-energy model or a local-barrier model written to a model file and loaded again, directly or through a simulation configuration, gives the same energies and rates for every state and event as the original, and saving it again gives the same content. Loading restores the concrete model kind recorded in the file.",
["inputs","configurations"],"all built models, parameters and states",
"Tests round-trip one model and look at a few fields; loss of one field matters only for the models that use it.",
["kmcpy/models/composite_lce_model.py","kmcpy/models/local_cluster_expansion.py","kmcpy/models/parameters.py","kmcpy/models/site_energy.py","kmcpy/models/local_barrier_model.py","kmcpy/models/base.py"],[("as_dict/from_dict/to/from_file","kmcpy/models/*.py"),("dispatch","kmcpy/models/base.py BaseModel.from_config")],
None,["compute / compute_probability before and after the round trip"])
p("C12","Event generation lists exactly the hops within the cutoff",
"For any labelled crystal, site mapping, cutoffs, endpoint selection and supercell, the generated library contains one event for every selected start site and every periodic neighbour of it that is closer than the cutoff and matches the target selection, and no others. Each event's local environment is the set of all periodic neighbours of the start site within the cutoffs, listed in an order such that symmetry-equivalent start sites present congruent environments, so that translating a configuration by a lattice vector leaves the set of rates unchanged. With strict matching, start sites of the same composition but different surroundings are refused.",
["inputs","configurations"],"all crystal structures, supercell shapes (including small and anisotropic), cutoffs and identifiers",
"Tests check event counts for one crystal; image wrapping, strict cutoffs and neighbour ordering must hold for every lattice and supercell.",
["kmcpy/event/generators.py","kmcpy/structure/neighbors.py","kmcpy/structure/cluster.py","kmcpy/structure/sites.py"],[("primitive template expansion","kmcpy/event/generators.py EventGenerator.generate_events"),("environment matching","kmcpy/structure/cluster.py ClusterMatcher")],
None,["events file written by EventGenerator.generate_events"])
p("C13","Event libraries know every dependency and survive a round trip",
"For any event library two events are recorded as dependent exactly when they share an endpoint or local-environment site, every event depends on itself, and looking up a site returns exactly the events involving it. Writing the library to a file and reading it back, with or without stored dependencies, gives the same events in the same order, the same dependencies, site lookup and index metadata.",
["inputs","histories"],"all event lists, including empty environments, repeated sites and duplicate events",
"Tests use hand-picked three-event libraries.",
["kmcpy/event/base.py"],[("dependency matrix","kmcpy/event/base.py _generate_event_dependency_matrix"),("serialization","kmcpy/event/base.py EventLib.to/from_file")],
None,["EventLib.get_dependent_events, get_events_involving_site, as_dict"])
p("C14","Compact active-site indices always denote the same physical sites",
"For any structure, site mapping and supercell the compact active-site index space consists of exactly the sites that allow more than one species; selecting occupations, filtering structures and building the active structure all use the same order, and every active site sits at its primitive site's position plus a lattice translation, each translation exactly once. Serialized order metadata restores the same order, and site spaces that differ in the number or elements of their sites, the allowed species or the supercell are told apart.",
["inputs","configurations"],"all structures, mappings (with any number of fixed and mutable species) and supercell shapes",
"Tests look at one structure; consistency between the several index maps must hold for all shapes and mappings.",
["kmcpy/structure/active_site_order.py","kmcpy/structure/sites.py"],[("order construction","kmcpy/structure/active_site_order.py ActiveSiteOrder.from_structure_and_mapping"),("supercell expansion","kmcpy/structure/sites.py make_kmc_supercell")],
None,["ActiveSiteOrder methods"])
p("C15","Structures and occupation vectors convert into each other without loss",
"For any lattice template, site mapping, basis and supercell, converting a valid occupation vector to a structure and back returns the same vector, and converting a decorated structure gives each template site the state of the species actually there, independent of the order of the atoms in the structure, of their periodic images and of small displacements. Structures that cannot be mapped (foreign species, two atoms on one site, atoms away from any site, incompatible lattice) are rejected.",
["inputs"],"all templates, mappings with up to several species per site, occupations, supercells, atom permutations, image shifts and displacements within tolerance",
"Tests round-trip a few hand-made structures.",
["kmcpy/structure/lattice_structure.py"],[("site matching","kmcpy/structure/lattice_structure.py LatticeStructure.get_occ_from_structure"),("inverse","kmcpy/structure/lattice_structure.py LatticeStructure.get_structure_from_occ")],
None,["LatticeStructure.get_occ_from_structure / get_structure_from_occ"])
p("C16","Simulation state survives checkpointing, copying and loading",
"Saving a state and loading it restores the same occupations, time and step, exactly; a copy never changes when the original does; and initial-state files given in full-supercell or active-site form load to the same active-site occupations. A run continued from a reloaded checkpoint visits the same states as a run continued from the original.",
["histories","inputs","crash_points"],"all states, times (over the full floating range), site selections and points of a run at which a checkpoint is taken",
"Tests save one small state.",
["kmcpy/simulator/state.py"],[("checkpoint I/O","kmcpy/simulator/state.py State.save_checkpoint/load_checkpoint/from_file")],
None,["State"])
p("C17","Configurations are validated, immutable and survive files unchanged",
"A configuration accepted by the constructor is written to and read from a file with every simulation setting unchanged, and invalid settings (wrong dimension, non-positive temperature, frequency or interval, malformed supercell, unknown fields, unknown property names) are rejected wherever they enter. The fields of a configuration cannot be reassigned; derived configurations change exactly the requested settings and leave the original alone.",
["configurations","inputs"],"all combinations of valid and invalid settings",
"Tests enumerate single settings.",
["kmcpy/simulator/config.py"],[("validation and routing","kmcpy/simulator/config.py Configuration"),("file I/O","kmcpy/simulator/config.py Configuration.to/from_file")],
None,["Configuration, RuntimeConfig, SystemConfig"])
p("C18","Environment matching returns a true one-to-one correspondence",
"When a local environment is a rotated, reflected, translated or relabelled copy of a reference, matching it to the reference succeeds and returns a one-to-one assignment that preserves species and all pairwise distances within tolerance; environments with different composition, or without such an assignment, are never reported as matching. Cluster equality, lengths and grouping depend only on geometry and species, not on the order of the sites.",
["inputs"],"all point sets with species, rigid motions, permutations and perturbations",
"Tests match a couple of hand-made clusters.",
["kmcpy/structure/cluster.py"],[("matching","kmcpy/structure/cluster.py ClusterMatcher.match"),("equality","kmcpy/structure/cluster.py Cluster.__eq__")],
None,["ClusterMatcher.match, Cluster equality"])
p("C19","External site-energy evaluators stay synchronized with the simulation",
"For any site and state mapping the external occupation handed to a user's energy callable always equals the mapped image of the current simulation occupations, both when a hop is being evaluated and after any number of accepted hops, and the announced changes are exactly the two endpoint changes of that hop in external coordinates. The value returned is converted to meV according to the declared units and used as energy after minus energy before; incomplete or out-of-range mappings are rejected up front.",
["histories","inputs","configurations"],"all site permutations/embeddings, per-site state mappings, units and hop histories",
"Tests run one or two hops with a fixed mapping.",
["kmcpy/models/site_energy.py","kmcpy/models/composite_lce_model.py"],[("mapped change derivation","kmcpy/models/site_energy.py SiteEnergyModel.compute/apply_event")],
[("external_occupation","cached external occupation","kmcpy/models/site_energy.py")],["arguments received by user compute/apply callables"])
p("C20","Fitting returns the regularized least-squares optimum and honest diagnostics",
"For any correlation matrix, energies and weights, the fitted coefficients are an optimum of the weighted L1-regularized least-squares problem for the requested penalty, predictions equal constant plus correlation times coefficients, and the reported error measures (RMSE over all data and unweighted leave-one-out RMSE) equal their definitions on that data. The stored parameters reproduce exactly the returned fit and can be loaded into the model they were fitted for.",
["inputs","configurations"],"all small data sets, weights and penalties",
"Tests fit one stored data set.",
["kmcpy/models/fitting/fitter.py","kmcpy/models/parameters.py"],[("fit","kmcpy/models/fitting/fitter.py LCEFitter.fit")],
None,["returned model parameters, predictions and files"])
p("C21","Environment enumeration is complete, duplicate-free and respects constraints",
"Enumerating local environments yields every decoration of the variable sites around the chosen centre that satisfies the requested species choices and composition limits, each exactly once, with all other sites unchanged. Migration endpoint pairs built from an environment differ exactly by the mobile ion having moved between the two endpoints.",
["inputs","configurations"],"all lattices, cutoffs, variable species and composition constraints small enough to enumerate by brute force",
"Tests count results for one lattice.",
["kmcpy/structure/local_environment_enumerator.py"],[("enumeration","kmcpy/structure/local_environment_enumerator.py")],
None,["enumerate_local_environments, enumerate_neb_endpoint_pairs"])
p("C22","Loading a labelled crystal keeps every site with its own label",
"For any crystal given as a symmetry-expanded or symmetry-reduced CIF, loading it gives exactly the sites the file describes, each carrying the label, species, occupancy and coordinates of the CIF row (or, for shared positions, rows) it belongs to, a distinct index and its number among the sites of that row, for every data block of the file; labels stay attached to their sites in primitive cells and supercells, and looking up a label, number and cell returns that site.",
["inputs"],"all lattices, site sets, labels and space-group operations the loader accepts",
"Tests load three fixed files.",
["kmcpy/io/cif.py","kmcpy/structure/sites.py"],[("label transfer","kmcpy/io/cif.py load_labeled_structure_from_cif")],
None,["load_labeled_structure_from_cif, make_kmc_supercell, build_site_index"])
p("C23","Result files hold exactly the simulation's results",
"The files a run writes contain, in full precision, the final displacements, hop counts and occupations, every sampled summary row in order with its units, and every stored property record, under names derived from the run's label and last pass; reading them back reproduces the in-memory results. Runs with different labels never overwrite each other's files.",
["histories","configurations","inputs"],"all run lengths, labels, sampling plans and callback value types",
"Tests check that files exist.",
["kmcpy/simulator/results.py","kmcpy/simulator/tracker.py"],[("writers","kmcpy/simulator/results.py")],
None,["displacement/hop_counter/current_occ/results/results_units/properties files"])
p("C24","Site basis functions and occupation vectors faithfully encode site states",
"For every number q of states per site the basis values are the Chebyshev polynomials T_1..T_(q-1) at equally spaced points of [-1, 1]; they distinguish all states and are linearly independent of each other and the constant, so every function of the state is representable. An occupation vector behaves like the sequence of states it was built from under indexing, slicing, assignment, flipping, copying, counting, comparison and conversion between bases, never shares data with its copies, and rejects values the basis does not define without being changed.",
["inputs","histories"],"all state counts and occupation vectors, and sequences of container operations",
"Tests check two- and three-state tables.",
["kmcpy/structure/basis.py"],[("basis tables","kmcpy/structure/basis.py ChebyshevBasis"),("container","kmcpy/structure/basis.py Occupation")],
None,["BasisFunction and Occupation API"])
p("C25","Mismatched inputs are refused instead of silently simulated",
"A simulation built from a configuration refuses to start when the event library was generated for a site space with other elements or numbers of sites, other allowed species or another supercell than the configuration describes or does not record its site space, when occupations are missing, have the wrong length or hold a state their site does not have, or when an index lies outside the active sites. A cluster-expansion model refuses coefficients fitted for different orbits, a different number of features or a different local environment, and events whose local environment has another number of sites than its own or holds a state the model does not define. Matching inputs are always accepted.",
["configurations","inputs"],"all pairs of matching and mismatching libraries, structures, mappings, supercells, states and parameter sets",
"Tests try one mismatch of each kind.",
["kmcpy/event/base.py","kmcpy/structure/active_site_order.py","kmcpy/models/local_cluster_expansion.py","kmcpy/simulator/kmc.py"],[("fingerprint comparison","kmcpy/structure/active_site_order.py ActiveSiteOrder.assert_same_order"),("parameter validation","kmcpy/models/local_cluster_expansion.py set_parameters")],
None,["KMC.from_config, EventLib.validate_index_metadata, LocalClusterExpansion.set_parameters"])
p("C26","Command line, API and configuration files run the same simulation",
"Running a simulation from a configuration file through the command line, through the API from that file, from single settings, or from an equivalent configuration built in memory gives the same trajectory, samples and result files for the same seed. Every command-line argument sets exactly the setting it names and malformed ones are rejected; the template written by the init command loads with the documented defaults, runs once filled in, and never replaces an existing file unless forced.",
["configurations","inputs"],"all valid configurations of small systems",
"Tests run the command line once.",
["kmcpy/cli/run_kmc.py","kmcpy/cli/main.py","kmcpy/cli/init.py","kmcpy/api.py","kmcpy/simulator/kmc.py"],[("entry points","kmcpy/cli/run_kmc.py"),("object construction","kmcpy/simulator/kmc.py KMC.from_config")],
None,["result files and Tracker results"])
p("C27","Training data hold one faithful row per migration structure",
"Each structure added to a training-data loader, in memory or from a file, gives one row in the order of addition: the occupations of the model's active sites as decorated in that structure, the model's correlation vector for the sites around its centre, the given value and metadata. The row does not depend on the order, periodic images, charges or small displacements of the atoms, and adding does not change the structure. An entry used in several data sets keeps its row in each. Structures, entries, models, weights and lists that do not fit are refused and leave the data set as it was; the matrices handed out and the files written hold exactly these rows in full precision.",
["histories","inputs","configurations"],"all cluster expansions, histories of additions, refused additions, reads and writes",
"Tests add a few structures of one stored model and look at shapes.",
["kmcpy/io/neb/data.py","kmcpy/models/local_cluster_expansion.py","kmcpy/structure/active_site_order.py"],[("loader","kmcpy/io/neb/data.py NEBDataLoader"),("featurization","kmcpy/models/local_cluster_expansion.py get_occ_corr_from_structure")],
[("neb_entries","the data set","kmcpy/io/neb/data.py")],["NEBDataLoader matrices and files"])
p("C28","Rates of generated events follow the geometry around each start site",
"When events are generated for a crystal and a cluster-expansion model is built around the generator's first start site with the same cutoff and the site order events use (species, then Cartesian x), the rate the simulator holds for every event, in every supercell, initially and after every hop, is the Arrhenius rate given by the clusters really present around that event's start site: the states of its periodic neighbours, each cluster weighted by the coefficient fitted for clusters of that shape and species. It does not depend on the order in which sites are listed, on rounding noise in coordinates, on the orientation of the start site or on where it lies in the supercell.",
["inputs","histories","configurations"],"all crystals whose start sites have congruent surroundings, supercells, cutoffs, cluster expansions, occupations and hop histories",
"Tests compare one NASICON run with stored numbers; environments with several sites at the same coordinate, other symmetries and small supercells never occur in them.",
["kmcpy/structure/local_site_order.py","kmcpy/structure/local_lattice_structure.py","kmcpy/event/generators.py","kmcpy/structure/cluster.py","kmcpy/models/local_cluster_expansion.py"],[("common site order","kmcpy/structure/local_site_order.py LocalSiteOrder"),("order of event environments","kmcpy/structure/local_lattice_structure.py sort_neighbor_info"),("matching to the reference environment","kmcpy/event/generators.py _match_or_register_local_environment")],
None,["KMC.prob_list of a simulation built from the generated files"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
