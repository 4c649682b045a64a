"""Texts and helpers shared by the properties."""

GIBBS_RULE = ("A run draws a training set, prior and proposal parameters, the source of the accept and leaf draws, an optional "
              "tree initializer and a set of interruptions from its seed and samples one model through the library's own "
              "schedule. distinct_nontrivial counts distinct (data set, shape and thresholds of all trees) states at the end "
              "of a sweep in which at least one tree has a split (at most 400 recorded per run).")
GIBBS_REAL = ["bartpy.data", "bartpy.split", "bartpy.splitcondition", "bartpy.node", "bartpy.tree", "bartpy.mutation",
              "bartpy.model", "bartpy.sigma", "bartpy.samplers (schedule, tree, leaf and sigma samplers, proposer, likelihood)",
              "bartpy.initializers.sklearntreeinitializer (with scikit-learn)"]
GIBBS_STUBS = ["random draws: numpy's generator behind a counted, fault-injecting seam; in part of the runs the uniform of the "
               "accept decision and the normal of the leaf draw are chosen by the simulator",
               "clock and standard streams: simulated"]
GIBBS_ASSUMES = ["numpy, pandas and scikit-learn compute what they document",
                 "interruptions arrive at random draws, between the steps of a sweep or when the caller abandons a sweep"]

EST_REAL = ["bartpy.sklearnmodel and everything below it", "joblib.Parallel (dispatch, retrieval, abort)", "cloudpickle transport",
            "tqdm progress output", "numpy's generator"]
EST_STUBS = ["joblib backends: worker processes (isolated, pickled transport) and worker threads (shared memory, preempted at "
             "source lines) are tasks of the simulator", "clock, sleeping and standard streams: simulated",
             "per-worker random state: one stream per submitted task"]
EST_ASSUMES = ["workers draw from generators of their own: in reality loky seeds each worker process freshly, and threads share "
               "one generator; the simulator gives every chain its own stream so that it can be compared",
               "preemption of shared-memory workers happens between source lines and at random draws, not inside a line",
               "numpy, pandas, joblib's Parallel and cloudpickle do what they document"]
EST_RULE = ("distinct_nontrivial counts distinct (worker arrangement, order in which workers switch and finish, faults fired, "
            "operations) combinations reached by runs that completed their operations.")
