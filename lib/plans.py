"""What each check runs.  mc: models of the specification; gen: scenario
generators; drive: drivers of the real code and the spec their traces must obey."""
PLANS = {}
PLANS["C01"] = dict(
    drive=[dict(driver="c01.py", spec="CATrace", kinds=["put", "step", "frame"], min=100)],
)
PLANS["C02"] = dict(
    mc=[dict(module="LifeMC", cfg="LifeMC_33.cfg", min_states=3000, actions=["Next"]),
        dict(module="LifeMC", cfg="LifeMC_34.cfg", tier="thorough", timeout=800)],
    drive=[dict(driver="c02.py", spec="LifeTrace", kinds=["put", "run"], min=500)],
)

NOTES = {}
NOT_APPLICABLE = {}
NOTES["C01"] = ("Exact: rules whose float arithmetic is exact are evaluated cell by cell by the TLA+ rule (YucaRule) in integers. "
                "Exhaustive in rule families/layouts/paddings by construction, sampled in grids and constants.")
NOTES["C02"] = ("All 512 birth and all 512 survival sets on a grid containing all 18 (state,count) situations, plus evolutions; "
                "the refinement continuous-rule => Life is model-checked on every 3x3 (thorough 3x4) torus.")
NOTES.update({
    "C03": "Histories of real automata (all classes) replayed in a TLA+ state machine over 2^-16 units; laws are sampled over histories, not proved for all.",
    "C04": "Generated histories over a heap of automata; behaviour judged as a function of the abstract configuration and, where computable, by the TLA+ rule.",
    "C05": "Save/restore/load operations inside generated histories, files re-read after each; configurations with different functions per channel in one file are out of scope.",
    "C06": "Any two histories that reach one abstract configuration must step alike; histories are generated (15 steps deep), not exhaustive.",
    "C07": "Reaction exact in dyadic arithmetic; stencil and equilibria within a few 2^-14 units.",
    "C08": "Fixed-point 2^-14 oracle with a few units' tolerance; weights kept in tanh's well-conditioned range.",
    "C09": "Every builder x radius 1-31 x scale; entries within a few 2^-14 units, symmetry and sums over 2^-26.",
    "C10": "Every function x mode x argument form; fixed-point oracle, a few units' tolerance.",
    "C11": "Selection and state updates exact; sampling judged by freshness and >6-sigma moment bounds only.",
    "C12": "RunMC explored exhaustively at small sizes; whole serial runs of the real code with their logs are accepted by RunTrace.",
    "C13": "Every interleaving at <=3 (4) workers model-checked; the real mantle/arm driven through generated schedules with a stand-in for MPI.",
    "C14": "Rewards recomputed from recorded steps; the wrapper is real, the automaton is partly scripted.",
    "C15": "Generated histories of agents; purity by bit equality, envelope for every grid size 2-70 in fixed point.",
    "C16": "Stores under prefix-related names model-checked; the real librarian's shelf re-read after each operation.",
    "C17": "Animations decoded frame by frame against recorded grids, within the palette's tolerance.",
    "C18": "Every combination of names over two runs model-checked; calls, subprocess command lines and search classes observed.",
    "C19": "Counts exact; entropies and correlations by fixed-point log within a stated rounding bound.",
    "C20": "Masks exact except a one-cell rim band that is not judged; draws judged by their stream.",
    "C21": "One driver per variant; a tie within fixed-point error of a threshold may go either way.",
    "C22": "Every error trajectory at 2 configurations x 2 restarts x 2 (3) steps model-checked; real and scripted trajectories validated.",
    "C23": "Impulse responses and steps of the named rules at many radii; glider velocities to 1/256 cell over long windows; two patterns whose files are not shipped are not covered.",
    "C24": "Every chain of 3 (4) experiments model-checked; real chains through log and configuration files. Kernels are not in logs, so no step equality is claimed for a continuation from a log alone.",
})
PLANS["C01"]["mc"] = [dict(module="CAMC", cfg="CAMC.cfg", min_states=1000, actions=["Next"])]
PLANS["C03"] = dict(
    mc=[dict(module="CAMC", cfg="CAMC.cfg", min_states=1000, actions=["Next"]),
        dict(module="CAMC", cfg="CAMC_33.cfg", tier="thorough", timeout=800, coverage=False)],
    drive=[dict(driver="c03.py", spec="CALawsTrace", min=30,
                kinds=["put", "new", "reset", "dt", "frame", "step", "same", "shift", "solo", "swap"])],
)

def conf(pid, quick, thorough, kinds):
    return dict(
        gen=[dict(module="ConfGen", cfg="ConfGen.cfg", quick=quick, thorough=thorough, depth=15, env="CONF_SCENARIOS",
                  min=quick // 2, setenv=dict(CONF_OPS=pid))],
        drive=[dict(driver="conf.py", spec="ConfTrace", kinds=kinds, min=quick // 2, setenv=dict(CONF_PROP=pid))])


PLANS["C04"] = conf("C04", 250, 2500, ["default", "build", "radius", "kernel", "params", "roundtrip", "twin", "step"])
PLANS["C05"] = conf("C05", 350, 3000, ["build", "params", "roundtrip", "dt", "radius", "kernel", "step", "save", "restore", "default", "write"])
PLANS["C06"] = conf("C06", 250, 2500, ["build", "params", "roundtrip", "dt", "radius", "kernel", "load", "step", "reset", "default"])
FIXED = dict(module="FixedMC", cfg="FixedMC.cfg", min_states=1000)
PLANS["C07"] = dict(mc=[FIXED], drive=[dict(driver="c07.py", spec="RxnTrace", min=90,
    kinds=["init", "step", "astep", "stencil", "grid", "impulse", "set_du", "set_dv", "set_dx", "set_dt", "set_params", "get_params", "load", "set_kernel", "reset"])])
PLANS["C08"] = dict(mc=[FIXED], drive=[dict(driver="c08.py", spec="NeuralTrace", min=150,
    kinds=["weights", "kernel", "step", "frame", "read", "freeze", "unfreeze", "save", "eval", "restore", "dt"])])
PLANS["C10"] = dict(mc=[FIXED], drive=[dict(driver="c10.py", spec="FnTrace", min=350, kinds=["eval", "log", "meta"])])
PLANS["C09"] = dict(mc=[FIXED], drive=[dict(driver="c09.py", spec="KernelTrace", min=250, kinds=["kernel", "moore", "inner", "nine", "unknown"])])
PLANS["C21"] = dict(mc=[FIXED], drive=[
    dict(driver="c21lenia.py", spec="CATrace", min=80, kinds=["put", "step", "frame", "reset"]),
    dict(driver="c21meta.py", spec="MetaTrace", min=100, kinds=["step", "reset"]),
    dict(driver="c21.py", spec="StepSizeTrace", min=100, kinds=["new", "step", "reset", "fresh"])])
RUN = [dict(module="RunMC", cfg="RunMC.cfg", min_states=7000, actions=["Evaluate", "Select", "Write", "Begin"]),
       dict(module="RunMC", cfg="RunMC_g3.cfg", min_states=2000, actions=["Evaluate", "Select", "Write", "Begin"]),
       dict(module="RunMC", cfg="RunMC_k4.cfg", min_states=20000, tier="thorough", timeout=300, coverage=False)]
PLANS["C11"] = dict(mc=RUN[:1] + RUN[2:], drive=[dict(driver="c11.py", spec="EvoTrace", min=150, kinds=["init", "put", "update", "rank", "tally"])])
PLANS["C12"] = dict(mc=RUN[1:2], drive=[dict(driver="c12.py", spec="RunTrace", min=100, kinds=["eval", "log", "end", "saved", "shown", "same", "differ"])])
PLANS["C13"] = dict(
    mc=[dict(module="YucaPar", cfg="ParMC.cfg", min_states=4000, actions=["MSend", "MRecv", "MCollect", "MStop", "SomeRecv", "SomeEval", "SomeSend"]),
        dict(module="YucaPar", cfg="ParMC_46.cfg", min_states=40000, tier="thorough", timeout=400, coverage=False)],
    gen=[dict(module="ParGen", cfg="ParGen.cfg", quick=150, thorough=1500, depth=250, env="PAR_SCENARIOS", min=100)],
    drive=[dict(driver="c13.py", spec="ParTrace", min=110, kinds=["eval", "collect", "end", "log", "logs", "launch", "real"])])
PLANS["C14"] = dict(drive=[dict(driver="c14.py", spec="RewardTrace", min=200, kinds=["call", "pred", "loss", "result", "accuracy", "random"])])
PLANS["C15"] = dict(
    gen=[dict(module="AgentGen", cfg="AgentGen.cfg", quick=200, thorough=2500, depth=20, env="AGENT_SCENARIOS", min=150)],
    drive=[dict(driver="c15.py", spec="AgentTrace", min=250, kinds=["new", "set", "get", "act", "noise", "device", "pool", "full"])])
PLANS["C16"] = dict(
    mc=[dict(module="ZooMC", cfg="ZooMC.cfg", min_states=1000, actions=["Store"]),
        dict(module="ZooMC", cfg="ZooMC_5.cfg", tier="thorough", timeout=400, coverage=False)],
    gen=[dict(module="ZooGen", cfg="ZooGen.cfg", quick=200, thorough=2500, depth=20, env="ZOO_SCENARIOS", min=150)],
    drive=[dict(driver="c16.py", spec="ZooTrace", min=180, kinds=["open", "store", "load", "index", "stranger", "crop", "legacy", "shipped"])])
PLANS["C17"] = dict(drive=[dict(driver="c17.py", spec="RenderTrace", min=80, kinds=["open", "render"])])
PLANS["C18"] = dict(
    mc=[dict(module="FrontMC", cfg="FrontMC.cfg", min_states=20000, actions=["SetPrecision", "Route", "ResolveEnv", "ResolveCA", "Again"])],
    gen=[dict(module="FrontGen", cfg="FrontGen.cfg", quick=150, thorough=1500, depth=12, env="FRONT_SCENARIOS", min=100)],
    drive=[dict(driver="c18.py", spec="FrontTrace", min=100, kinds=["request"])])
PLANS["C19"] = dict(
    mc=[dict(module="PhanesMC", cfg="PhanesMC.cfg", min_states=600, actions=["Tick"]),
        dict(module="PhanesMC", cfg="PhanesMC_3.cfg", tier="thorough", timeout=300, coverage=False)],
    drive=[dict(driver="c19.py", spec="PhanesTrace", min=80, kinds=["start", "tick", "done", "entropy", "spatial", "cond", "multicond", "multi"])])
PLANS["C20"] = dict(
    mc=[dict(module="ImagesMC", cfg="ImagesMC.cfg", min_states=5000, actions=["Reseed", "Draw"])],
    drive=[dict(driver="c20.py", spec="ImagesTrace", min=130, kinds=["mask", "bite", "aperture", "batch", "bites", "target", "seed", "draw"])])
PLANS["C22"] = dict(
    mc=[dict(module="CloneMC", cfg="CloneMC.cfg", min_states=1000, actions=["New", "Step", "Save"]),
        dict(module="CloneMC", cfg="CloneMC_3.cfg", tier="thorough", timeout=300, coverage=False)],
    drive=[dict(driver="c22.py", spec="CloneTrace", min=33, kinds=["source", "new", "step", "save", "end"])])
PLANS["C23"] = dict(
    mc=[dict(module="GliderMC", cfg="GliderMC.cfg", min_states=2000, actions=["Next"]),
        dict(module="GliderMC", cfg="GliderMC_9.cfg", tier="thorough", timeout=600, coverage=False)],
    drive=[dict(driver="c23.py", spec="NamedTrace", min=40, kinds=["set", "kernel", "step", "seen"])])
PLANS["C24"] = dict(
    mc=[dict(module="SequelMC", cfg="SequelMC.cfg", min_states=20000, actions=["Open", "Finish"]),
        dict(module="SequelMC", cfg="SequelMC_4.cfg", tier="thorough", timeout=500, coverage=False)],
    drive=[dict(driver="c24.py", spec="SequelTrace", shards=4, min=100, kinds=["shipped", "open", "eval", "first", "end"])])
