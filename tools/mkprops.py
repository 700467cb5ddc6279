"""Regenerates /verif/properties.jsonl (the text lives here, one call per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "A continuous CA step computes exactly the configured rule",
  "One step of a continuous CA maps every cell to clamp(x + dt * equally weighted sum over internal channels (weights 1/(external*internal)) of ((1-id)*genesis(n) + id*persistence(n)), 0, 1), where id and n are the identity- and neighbourhood-kernel correlations of the grid under the configured padding and channel grouping. Cells whose alpha channel does not exceed the alive threshold are zeroed before the step when the universe has four or more channels. The rule holds for every genesis/persistence family the configuration language offers, each internal channel using its own pair of functions.",
  ["inputs", "configurations", "histories"],
  "every grid, batch, channel layout, kernel (centred or skewed), growth-function family and mode, dt, padding mode and alive threshold; multi-step histories included",
  "Tests run a few steps on random grids and check shapes, sums or devices; none compares a cell with the value the rule prescribes.",
  ["yuca/ca/continuous.py", "yuca/ca/common.py"],
  [("update rule", "CCA.update_universe / CCA.forward"), ("convolutions and grouping", "CA.initialize_id_layer, CA.initialize_neighborhood_layer"), ("alive mask", "CA.alive_mask"), ("channel weights", "CCA.initialize_weight_layer")],
  ["return value of calling the CA on a grid"],
  [("grid", "cell values", "argument/return of CCA.forward"), ("rule", "kernels, functions, dt", "CCA attributes")])
p("C02", "Life-like configurations play their B/S rule exactly",
  "A CA built from a Life-like configuration with birth set B and survival set S maps a 0/1 torus grid, at every step, to the grid in which a dead cell is born iff its live Moore-neighbour count is in B and a live cell survives iff its count is in S. Cells stay at 0 or 1 (to float rounding) for any number of steps.",
  ["inputs", "configurations", "histories"],
  "all 2^18 B/S rules with 0..8 neighbours, every initial binary grid and size, every number of steps",
  "Tests only check that the config dictionary has certain keys; no test compares any Life-like evolution with the B/S rule.",
  ["yuca/configs.py", "yuca/activations.py", "yuca/kernels.py", "yuca/ca/continuous.py"],
  [("interval construction", "get_smooth_interval / get_life_like_config"), ("smooth step function", "SmoothIntervals.forward"), ("Moore kernel", "get_kernel MooreLike")],
  ["successive grids returned by the CA"])
p("C03", "Every automaton obeys the common CA laws",
  "For every automaton type a step returns a grid of the same shape with all values in [0,1], leaves its input unmodified, treats batch members independently, commutes with torus translations under circular padding, and is reproducible from the same state. The simulated clock starts at zero on creation and reset and grows by exactly the time step used on each step. For automata whose step depends on the grid alone (all but the adaptive, random-step and momentum variants), asking for a preview frame returns what the next step would return and does not advance the clock.",
  ["inputs", "configurations", "histories"],
  "every automaton class with a state-independent step (continuous, Lenia, neural in eval mode, Gray-Scott; bounds also for the adaptive, random-step and meta variants, clock for the first two), every grid/batch/offset, every interleaving of steps, previews, resets and dt changes",
  "Tests take single steps from one random grid per class; equivariance, independence, purity, previews with alpha channels and clock histories are never exercised.",
  ["yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py", "yuca/lenia.py"],
  [("clamping and clock", "CA.forward, CCA.forward, RxnDfn.forward"), ("preview", "CA.get_frame, CCA.get_frame"), ("reset", "CA.reset")],
  ["grids returned by step/preview", "t_count"],
  [("t_count", "simulated time", "CA.t_count")])
p("C04", "Parameter vectors round-trip and determine the rule",
  "Reading an automaton's parameter vector and writing it back never changes its behaviour, and after writing a vector v of the right length, reading returns v. The vector is laid out as genesis parameters, persistence parameters, kernel parameters (network weights then kernel parameters for neural CAs; u-diffusion, v-diffusion, feed, decay for Gray-Scott; genesis only for Lenia), and two automata of the same configuration given the same vector step identically.",
  ["inputs", "configurations", "histories"],
  "every configuration (all growth-function and kernel families, all automaton classes), every parameter vector of matching length, any sequence of reads, writes and steps",
  "Tests only check that parameters change after a set with one random vector of the default CA, and fail here without a numpy bridge; they never relate parameters to behaviour or other kernel families.",
  ["yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py", "yuca/lenia.py"],
  [("vector layout", "get_params / set_params of each class"), ("kernel rebuild", "CA.update_kernel_params, set_params")],
  ["get_params()", "grids stepped after set_params"])
p("C05", "A saved CA configuration restores the same automaton",
  "Saving an automaton's configuration and restoring it (in a new automaton, or over another one) yields an automaton with the same parameters, time step, kernel radius, padding, channels and identical evolution from every grid, whatever sequence of parameter, dt, radius and configuration changes preceded the save. Saving never changes the automaton or a configuration object the caller passed in, and saving a restored automaton again gives an equivalent configuration.",
  ["histories", "configurations", "inputs"],
  "every history of load / set parameters / set dt / set radius / step / save / restore for functional continuous CAs with one growth pair, neural CAs and Gray-Scott CAs",
  "Tests save one freshly built CA and check keys; no test restores after parameters changed, none covers interval rules, identity kernels or repeated save/restore.",
  ["yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py"],
  [("serialise", "make_config / save_config"), ("restore", "restore_config / load_config")],
  ["grids stepped before saving and after restoring", "get_params, get_dt, get_kernel_radius"],
  [("config dict", "persisted rule", "ca_configs/*.npy")])
p("C06", "Reconfiguring a CA equals building it with those settings",
  "After any sequence of dt, kernel-radius, kernel-configuration and parameter changes, an automaton behaves exactly like a fresh one configured directly with the final settings: each setting takes effect on the next step, reports back the value set, and leaves every other setting unchanged. In particular changing the radius rescales the current kernel, and changing parameters keeps the radius.",
  ["histories", "configurations"],
  "every finite interleaving of set_dt, set_kernel_radius, set_kernel_config, set_params, load_config, steps and resets on functional continuous CAs and neural CAs",
  "Tests call set_kernel_radius once and compare the reported radius; no interleavings, no check of the resulting kernel.",
  ["yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/ca/neural.py"],
  [("radius", "CA.set_kernel_radius"), ("kernel config", "CA.set_kernel_config, NCA.set_kernel_config"), ("dt", "CA.set_dt")],
  ["grids stepped after the changes", "get_dt", "get_kernel_radius", "get_params"])
p("C07", "The reaction-diffusion CA integrates the Gray-Scott equations",
  "One step of the reaction-diffusion automaton is a forward-Euler step clamp((u,v) + dt*(Du*lap(u)/dx^2 - u*v^2 + f*(1-u), Dv*lap(v)/dx^2 + u*v^2 - (f+k)*v), 0, 1), the Laplacian being the same normalised zero-sum stencil for both species with no cross-talk. Its initial grid is the homogeneous equilibrium for the current feed and decay rates, so the reaction term vanishes there, and setters and parameter vectors change exactly the named constant.",
  ["inputs", "configurations", "histories"],
  "every grid, dt, dx, feed, decay and diffusion setting; every kernel; the equilibrium for every feed and decay rate at which a non-trivial one exists (feed >= 4*(feed+decay)^2)",
  "Tests check one equilibrium grid stays put for default constants and output shapes; wrong coupling terms that vanish at equilibrium are invisible to them.",
  ["yuca/ca/reaction_diffusion.py"],
  [("reaction terms", "RxnDfn.update_universe"), ("equilibrium", "RxnDfn.initialize_grid"), ("integration", "RxnDfn.forward")],
  ["grid returned by a step", "grid returned by initialize_grid"])
p("C08", "The neural CA applies its weights to identity and neighbourhood",
  "In evaluation mode a neural CA maps every cell to clamp(x + dt*tanh(W3 act(W2 act(W1 [id; n]))), 0, 1), W1..W3 being the network weights in parameter-vector order, act the configured activation, and [id; n] the identity channels followed by the neighbourhood channels. Freezing or unfreezing gradients, saving or reading parameters does not change the mapping.",
  ["inputs", "configurations"],
  "every weight vector, activation, channel layout, hidden width, kernel and grid in evaluation mode",
  "Tests check output shapes for random weights; no expected value is ever computed.",
  ["yuca/ca/neural.py", "yuca/ca/common.py"],
  [("network", "NCA.initialize_weight_layer, NCA.update_universe")],
  ["grid returned by a step in eval mode"])
p("C09", "Neighbourhood kernels are centred, isotropic and normalised",
  "Every kernel the library builds for radius r is a finite (2r+1)x(2r+1) array whose weight depends only on the distance from the centre as its profile prescribes; edge kernels are the documented difference of two shifted profiles. Kernels other than Laplacians are non-negative with minimum 0 and sum to 1 (up to a 1e-9 regularisation) whenever the profile is not constant; Laplacian kernels sum to 0. The Moore kernel is uniform over all cells but the centre, and the inner kernel is the unit centre cell.",
  ["configurations", "inputs"],
  "every kernel family, radius >= 1 and parameter setting",
  "Tests check shape and sum for one or two settings per kernel; the profile, symmetry, minimum and orientation are unchecked.",
  ["yuca/kernels.py", "yuca/activations.py"],
  [("kernel builders", "get_kernel, get_*_kernel")],
  ["returned kernel arrays"])
p("C10", "Growth functions follow their mathematical definitions",
  "Each growth function computes its published formula elementwise: Gaussian bumps peak at 1 at mu and are symmetric with width sigma, mixtures and double Gaussians are clamped (amplitude-weighted) sums, interval functions are products of rising and falling logistic steps summed over intervals, polynomials use ascending powers, identity is the identity. Signed mode maps the unsigned value g to 2g-1, and the shape, dtype and device of tensor inputs (of the library's default precision or wider) are kept.",
  ["inputs", "configurations"],
  "every input value, every parameter vector, both modes, every function family",
  "Tests evaluate each function on a handful of points, mostly checking shape or peak only; parameter ordering, amplitudes, clamping and signed mode are not compared with the formula.",
  ["yuca/activations.py"],
  [("functions", "Gaussian, DoubleGaussian, GaussianMixture, DoGaussian, Polynomial, SmoothIntervals, CosOverX2, SmoothLifeKernel, get_smooth_steps_fn")],
  ["function values"])
p("C11", "A CMA-ES generation selects and resamples as specified",
  "From a fitness list, an update keeps floor(n/8)+1 elites chosen by the selection mode (the truly best in truncation mode, champions of random brackets in tournament mode, distinct rank-weighted draws in proportional mode), in order. The new mean is the elites' mean, the new covariance their mean outer product about the previous mean, the leading half of the elites survives unchanged into the next population, every other member is a fresh sample of the new distribution, and the population size never changes. The initial population holds given elites and samples of the starting distribution otherwise.",
  ["inputs", "histories", "configurations"],
  "every population size, fitness list (ties, equal, negative), selection mode, elite position within the population, and sequence of generations",
  "Tests run search() for one or two tiny generations and assert it finishes; they need the numpy bridge and never look at who was selected.",
  ["yuca/cmaes.py"],
  [("selection and update", "CMAES.update_population"), ("final ranking", "CMAES.rank_population"), ("initialisation", "CMAES.reset, CMAES.initialize_population")],
  ["population parameter vectors, elite_params, means, covar after an update"],
  [("population", "current individuals", "CMAES.population"), ("elite_params", "selected parameters", "CMAES.elite_params")])
p("C12", "An evolution run evaluates, ranks and records every generation",
  "A serial run evaluates every individual of every generation exactly once, per seed, and logs per generation the mean, max, min and standard deviation of exactly those fitness values with the elites and distribution selected from them. At the end the recorded elites are the best individuals of the last evaluated generation, best first, and the saved rule configuration is that of the best one. The pictures a rule search or co-evolution ends with show all of its recorded elites and nothing else. A run stops early only when the fitness spread is below 0.02 after the seventh generation, and all individuals of a generation face the same random stream. Runs are reproducible from the seed, and a seed's results do not depend on which seeds ran before it.",
  ["histories", "configurations", "inputs"],
  "every landscape of fitness values, number of generations (early stop included), population size, selection mode and list of seeds",
  "Tests only check that an evolution finishes; log contents, early stop, final elites and multi-seed runs are never examined.",
  ["yuca/cmaes.py"],
  [("main loop", "CMAES.mantle"), ("evaluation", "CMAES.get_fitness"), ("final ranking and saving", "CMAES.rank_population, get_elite_configs")],
  ["evaluation calls", "progress log file", "saved CA configuration"],
  [("progress", "run log", "./logs/*_seed*.npy")])
p("C13", "Parallel evolution gives every individual its own fitness once",
  "With any number of MPI workers and any message timing, every individual of every generation is evaluated exactly once with its own current parameters and the generation's seed, and the fitness values are attributed to the right individuals, each fitness being the one a serial evaluation of that individual in that generation gives. Every worker receives work of near-equal size each generation and shuts down after the last one; no message is left unread.",
  ["schedules", "configurations", "histories"],
  "every population size and worker count >= 2 (population smaller or larger than, or not divisible by, the number of arms), every interleaving of message deliveries, any number of generations and seeds",
  "No test uses workers > 0.",
  ["yuca/cmaes.py"],
  [("dispatch and collection", "CMAES.mantle"), ("worker loop", "CMAES.arm"), ("launch", "CMAES.mpi_fork, CMAES.search")],
  ["messages exchanged between mantle and arms", "evaluations in arms", "logged fitness"])
p("C14", "Fitness wrappers compute the documented rewards",
  "The simple halting reward is minus the distance between 0.5001 and the fraction of random soups (filling the centre half of the grid) still alive after the given number of CA steps under the evaluated parameters. The halting reward is minus the accuracy of the trained predictor on the wrapper's vanish/static/both targets, and the reported active fraction is the mean of those targets. The glider reward is the sum over steps of the wrap-corrected centre-of-mass displacement in kernel radii minus the relative mass change, stopping early only when the pattern has died or frozen.",
  ["inputs", "configurations", "histories"],
  "every CA rule, initial pattern, number of steps, batch size, grid size and prediction mode",
  "Tests call step once and check only that something is returned (and most need the numpy bridge).",
  ["yuca/wrappers/halting_wrapper.py", "yuca/wrappers/glider_wrapper.py", "yuca/wrappers/random_wrapper.py"],
  [("rewards", "SimpleHaltingWrapper.step, HaltingWrapper.step, HaltingWrapper.get_accuracy, GliderWrapper.meta_step")],
  ["(obs, reward, done, info) returned by step"])
p("C15", "Pattern and rule agents are pure functions of their parameters",
  "A pattern agent's action depends only on its parameter vector, channel count and grid size: it is a non-negative (1, channels, dim, dim) grid for every dim of at least 2, attenuated by the squared distance to the rim and suppressed (by a million) beyond three quarters of the half-width. Writing a parameter vector and reading it back returns it, agents with equal vectors act identically, and a combined agent splits its vector into pattern weights followed by rule parameters. A rule agent returns its parameters, filtered into [0.0001, 1] in absolute value when filtering is on.",
  ["inputs", "configurations", "histories"],
  "every parameter vector, grid size, channel count and sequence of set/get/act calls",
  "Tests check action shapes for one random agent; purity, envelope and layout are not checked, and parameter access needs the numpy bridge.",
  ["yuca/cppn.py", "yuca/params_agent.py"],
  [("pattern", "CPPN.get_action, get_params, set_params"), ("combined agent", "CPPNPlus"), ("rule agent", "ParamsAgent")],
  ["get_action(), get_params()"])
p("C16", "The pattern zoo never loses or mixes up stored patterns",
  "Storing a pattern creates a new numbered entry and never alters an existing one; loading an entry returns exactly the stored array and the stored metadata (configuration, entry point, commit hash, notes). Updating the index makes it list exactly the stored pattern names in sorted order, and cropping returns exactly the requested rectangle of the last two axes without touching the original.",
  ["histories", "inputs"],
  "every sequence of store/load/index/crop operations with any names (shared prefixes included), arrays, metadata strings and verbosity",
  "No stable test exercises the librarian.",
  ["yuca/zoo/librarian.py"],
  [("store", "Librarian.store"), ("load", "Librarian.load"), ("index", "Librarian.update_index"), ("crop", "Librarian.crop")],
  ["files in the zoo directory", "values returned by load/crop", "index"],
  [("zoo directory", "stored .npy/.csv pairs", "Librarian.directory")])
p("C17", "Rendering writes the CA's successive states, in order, and cleans up",
  "Rendering n steps of an automaton whose step depends on the grid alone produces one animation whose k-th frame shows the state after k*speedup steps from the starting grid (starting grid first), coloured by channel count (one: the colour map; two: green and blue; three: RGB; more: RGBA of the first four) with optional inversion, stopping when the pattern has vanished and making no animation for a pattern that dies at once. Temporary frames are removed afterwards and nothing else in the frames' parent folder or in the animation folder is touched, and neither the automaton's clock nor the caller's grid changes.",
  ["inputs", "configurations", "histories"],
  "every grid, channel count, number of steps (digit boundaries included), speedup, tag form and inversion setting; repeated renderings",
  "No stable test renders anything.",
  ["yuca/utils.py"],
  [("frame loop", "save_fig_sequence"), ("assembly", "make_gif")],
  ["image frames handed to the writer / frames of the GIF", "files left on disk"])
p("C18", "The evolve front end runs exactly the requested search",
  "The experiment tag selects pattern search (tags containing 'pattern'), co-evolution (otherwise, tags containing 'coevo') or rule search; the named automaton and, for rule searches, the named environment are resolved to exactly the class of that name, the two-species automaton always gets two channels, and the default precision follows the requested dtype. Every other option reaches the search unchanged, and names of no known automaton or rule-search environment are refused before any search starts.",
  ["inputs", "configurations"],
  "every combination of tag, automaton name, environment name, dtype and remaining options",
  "The CLI tests run three commands for exit status and cannot finish here without the numpy bridge.",
  ["yuca/evolve.py"],
  [("dispatch", "evolve, pattern_search, coevolve, universe_search")],
  ["class and keyword arguments of the search that is started"])
p("C19", "Universe analysis counts deaths and escapes correctly",
  "Analysing a universe reports, for every step until the limit or until all soups are dead, the fraction of dead soups and the fraction of soups active on the grid border, and for each soup the first step at which it had vanished (-1 if it never does), every soup starting inside the central box. It also reports the correlation of the soups with their previous state and the mean spatial entropy. Analysing a directory analyses every configuration in it under its own rule and stores each result under its own name. Entropy of a grid is the Shannon entropy in bits of its 256-level histogram, and the spatial entropy at a cell is (for the analyser, odd windows no wider than the grid) that entropy over the wrapped window centred there; the conditional entropy given a neighbour is that of the pairs less that of the neighbours.",
  ["inputs", "configurations", "histories"],
  "every rule, number of soups, step limit, grid size and window",
  "No test covers the analysis module.",
  ["yuca/analyze.py"],
  [("counting", "Phanes.analyze_universe"), ("entropy", "Phanes.get_grid_entropy, get_spatial_entropy, get_grid_entropy")],
  ["results dictionary", "entropy values"])
p("C20", "Seeding, masks and training inputs are well-defined",
  "Seeding with s makes every later torch and numpy draw a function of s alone. A mask is 0 inside the given radius and 1 outside, a bite is a disc of zeros centred at the given coordinates and identical in all channels, an aperture is the complementary disc (everything for radius near 1 or more), and a prepared batch holds in each sample image*aperture*bite plus noise in [0, level) in the image's channels and zeros in any extra channel.",
  ["inputs", "configurations"],
  "every image size and channel count (batch of one), radius, coordinate, batch size, noise level and seed",
  "Tests use one square single-channel image with default settings and compare sums or shapes.",
  ["yuca/utils.py"],
  [("helpers", "seed_all, get_mask, get_bite_mask, get_aperture, prep_input, make_target")],
  ["returned arrays"])
p("C21", "CA variants step by their own documented update",
  "Lenia adds dt times its weighted genesis growth regardless of the cell's own value. The adaptive automaton takes the largest tried step in (2*previous capped at max, then repeated *3/4) whose one-step and two-half-step results agree within the threshold, or the minimum step if none does, and advances grid, clock and previous step by exactly that step. The random-step automaton draws a step in [min, max) per call and uses and reports that same step; the meta automaton integrates its update into a persistent momentum grid that reset or a shape change clears.",
  ["inputs", "configurations", "histories"],
  "every rule, grid, threshold, step bounds and history of steps and resets",
  "No stable test covers any of the four variants.",
  ["yuca/lenia.py", "yuca/code.py", "yuca/random_step_ca.py", "yuca/metaca.py"],
  [("variants", "Lenia.update_universe, CODE.adaptive_euler, RandomStepCA.get_new_grid, MetaCA.forward")],
  ["grids returned by steps", "t_count, prev_dt, dt"])
p("C22", "Cloning returns the best network it saw, for the CA it was given",
  "Cloning a continuous CA into a neural CA trains against the source's own update on its own neighbourhood kernel and saves, for every requested configuration in its own file when the save name has the ca_config placeholder, the network weights that showed the lowest relative error, growing the hidden width between restarts by a quarter up to the limit. The source configuration is left unchanged and training of a configuration stops as soon as the error threshold is met.",
  ["histories", "configurations"],
  "every source configuration (one or several), iteration and step limit, threshold, hidden width and error trajectory",
  "The clone tests need CUDA defaults or the numpy bridge and check only that a file appears.",
  ["yuca/clone.py"],
  [("training loop", "clone_from_ca")],
  ["files written by cloning", "networks constructed during cloning"])
p("C23", "Named rules and shipped gliders are the published ones",
  "The built-in SmoothLife, orbium and geminium configurations give, at every kernel radius asked for, the published rule: the ring, three-ring or annulus kernel, the growth centres and widths (or birth and survival intervals with their steepnesses and the inner-disc identity kernel), the requested radius, one channel and the time step 1 (SmoothLife) or 0.1. Under its rule each shipped glider (Life's, orbium, geminium, SmoothLife's) glides: wherever and in whichever of the eight orientations it is placed on a torus large enough, it keeps its mass and moves with constant velocity in the direction its orientation gives.",
  ["inputs", "configurations", "histories"],
  "every named configuration at every radius, every grid stepped under it, every placement and orientation of a shipped glider and every number of steps",
  "Tests only call the builders and compare pattern shapes; no constant, no step and no glider is looked at.",
  ["yuca/configs.py", "yuca/patterns.py"],
  [("named rules", "get_smooth_life_config, get_orbium_config, get_geminium_config"), ("patterns", "get_glider, get_orbium, get_geminium, get_smooth_glider")],
  ["kernels, previews and steps of automata built from the configurations", "successive grids with a placed pattern"])
p("C24", "An experiment carries on from the log or configuration of another",
  "A finished evolution leaves, per seed, a log and a configuration file. A new evolution opened with them starts where the other ended: given the configuration, its automaton has the rules and takes the steps of that run's best individual (of the rules the patterns lived in, for a pattern search); given the log of a rule search, its automaton has the parameters of the best individual; given both, the configuration decides the rules. When individuals have the log's size, the starting mean is the mean of the final elites taken over (at most as many as it keeps) and they are all evaluated in the first generation of every seed; otherwise it starts from its own automaton's rules. A pattern search never alters the rules, and log and configuration of a run agree, however long the chain of experiments.",
  ["histories", "configurations", "inputs"],
  "every chain of rule, pattern and co-evolution experiments on CCA, Lenia and NCA, opened with any earlier log of matching make, any configuration (own or shipped), both or neither",
  "No test opens an experiment with the files of another; the serial and MPI tests look at single runs.",
  ["yuca/cmaes.py", "yuca/wrappers/*.py", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/cppn.py", "yuca/params_agent.py"],
  [("resuming", "CMAES.__init__, initialize_population, rank_population, get_elite_configs"), ("opening", "CCA.__init__, GliderWrapper.__init__, HaltingWrapper.__init__, restore_config")],
  ["parameters and steps of the automaton when an experiment opens", "individuals evaluated", "log and configuration files"])
with open(OUT, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
