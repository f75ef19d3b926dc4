"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
W = "src/wax/"
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": [W + f for f in files],
                    "state": [{"name": n, "meaning": m, "where": W + w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": W + w} for n, w in mechanism],
                    "observe_at": observe, "hook_needed": None}})


prop("C01", "Merging out-of-sync streams is causal, complete and exact",
     "When several time-indexed streams are synchronised on a local time, each local step receives from every secondary stream exactly the observations whose time lies strictly before the (optionally day-floored) local time and that were not consumed before: the newest one, or the newest N of all consumed ones when a buffer of length N is configured, with the dtype's missing value where nothing is known. With forward fill the previous delivery is repeated while nothing new arrives, without it the missing value is delivered; constants reach every step whole and unchanged. No step ever depends on an observation at or after its local time, and the failure of a source is never passed over in silence.",
     ["inputs", "fault_sequences", "configurations", "schedules"],
     "all numbers, rates and dtypes of streams, all arrival patterns (loss, duplication, delay, stalls, bursts, clock skew, ties), all freq / ffill / buffer settings, all interleavings of concurrent merges",
     "the tests use one three-stream temperature data set and one configuration, and compare a handful of steps; ties, bursts larger than the buffer, multi-dimensional buffered data, exhausted or failing sources are never reached",
     ["stream.py", "accessors.py", "encode.py"],
     [("Stream.merge", "stream.py"), ("trace_dataset / access_data", "stream.py"), ("floor_datetime", "encode.py")],
     ["Stream.merge", "Stream.prepare", "xr.Dataset.wax.stream(...).apply"],
     [("output_values / stream_obs", "last delivery and look-ahead observation of every stream", "stream.py")])

prop("C02", "Haiku streaming: every way of unrolling gives the same run, across crashes",
     "For every module, processing a stream step by step, as one compiled scan, as a Python scan, or cut anywhere into chunks gives the same outputs and the same final state, and the output at a step depends only on inputs up to that step. A run that crashes between any two steps and is resumed from its saved parameters and state (nothing else survives) continues as if it had never stopped. Randomised modules draw the same keys in the same order in every mode.",
     ["crash_points", "inputs", "histories", "configurations"],
     "all modules and options, all input streams with missing values, all cut points, all mixtures of unroll modes",
     "the tests compare two modes on one array for a few modules and never resume from a saved state at an arbitrary cut or mix modes within one run",
     ["unroll.py", "stateful.py", "transform.py", "modules/buffer.py", "modules/ewma.py", "modules/ewmvar.py", "modules/ewmcov.py", "modules/lag.py", "modules/diff.py", "modules/pct_change.py", "modules/rolling_mean.py", "modules/ohlc.py", "modules/arma.py", "modules/snarimax.py", "modules/update_on_event.py", "modules/has_changed.py", "modules/ffill.py", "modules/counter.py", "modules/online_optimizer.py"],
     [("unroll_transform_with_state", "unroll.py"), ("static_scan / dynamic_unroll_fori_loop", "unroll.py"), ("hk.set_state of each module", "modules/buffer.py")],
     ["unroll_transform_with_state(...).apply", "unroll", "static_unroll", "dynamic_unroll"])

prop("C03", "Flax streaming: every way of unrolling gives the same run, across crashes",
     "For every Flax module, stepping, the compiled unroll, the Python unroll, the stream scan and any cutting into chunks give the same outputs and the same final state for the same initial state, and outputs are causal. A run resumed from its serialised variables at any point continues exactly as the uninterrupted run. Using the wrappers again, or for another stream, starts from the variables it is given and from nothing else.",
     ["crash_points", "inputs", "histories", "configurations"],
     "all Flax modules and options, all input streams, all cut points and mixtures of modes",
     "the tests check shapes and a few values of each mode separately on single arrays",
     ["flax/core/unroll.py", "flax/core/transform.py", "flax/core/advanced_state_patterns.py", "flax/modules/buffer.py", "flax/modules/ewma.py", "flax/modules/lag.py", "flax/modules/rolling_mean.py", "flax/modules/ohlc.py"],
     [("flax_unroll / unroll_flax_module", "flax/core/unroll.py"), ("streaming transforms", "flax/core/transform.py")],
     ["flax unroll functions", "module.apply(variables, x, mutable=...)"])

prop("C04", "Labelled streaming: labels, values and state survive chunking and restarts",
     "Applying a module to a pandas or xarray container gives the module's outputs with the container's own type, dimension coordinates and order (for hierarchical labels: the same labels), each value under the label of the step that produced it. Applying it to consecutive parts of data with one time while passing parameters and state on gives the same labelled values and final state as one pass, wherever the cuts and process restarts are. Without a state being passed on, every application starts afresh, and the input container is never modified.",
     ["crash_points", "inputs", "histories", "configurations"],
     "all containers, index types, module output shapes, cut points and restart points",
     "the tests apply modules to one fixed data set in one pass and look at shapes and types",
     ["accessors.py", "format.py", "stream.py", "unroll.py"],
     [("StreamDataArray.apply and siblings", "accessors.py"), ("format_dataarray / format_dataframe / format_series", "format.py")],
     ["obj.wax.stream().apply", "obj.wax.ewm().mean"])

prop("C05", "Concurrent and interleaved streaming sessions never influence each other",
     "Any number of streaming sessions, run in threads or interleaved step by step, whether they share modules, transformed functions, stream objects and wrappers or not, each produce exactly what they produce when run alone. A session that fails, is abandoned or is restarted half way leaves the others, and later sessions, unaffected.",
     ["schedules", "fault_sequences", "histories"],
     "all interleavings of sessions, all failure points of one of them, all sharing patterns",
     "no test runs two sessions at once or continues after a failing session",
     ["stateful.py", "unroll.py", "stream.py", "flax/core/transform.py", "flax/core/unroll.py", "modules/update_on_event.py", "modules/vmap.py"],
     [("pure init/apply pairs", "unroll.py"), ("stateful wrappers", "stateful.py")],
     ["outputs and states of each session"])

prop("C06", "Event gating and resets act on exactly the steps of their events",
     "A module gated by an event updates its state exactly on the steps where the event is true and otherwise leaves output and state as they were, so that the gated run equals an ungated run over the event steps only (the Flax ConditionalComputation gates its output only, its inner state always advances, as documented). A reset returns the state to its initial value on exactly the step it is requested for (a streaming scan's reset takes effect right after the requesting step), whatever the data, missing values, repeated resets or restarts around it.",
     ["histories", "inputs", "crash_points", "configurations"],
     "all event sequences (never, always, bursts, first and last step), all gated modules, all cut points",
     "the tests drive one event pattern through one module",
     ["modules/update_on_event.py", "modules/ohlc.py", "modules/counter.py", "flax/core/streaming_transforms.py", "flax/core/transform.py", "flax/core/advanced_state_patterns.py"],
     [("UpdateOnEvent", "modules/update_on_event.py"), ("streaming_scan reset", "flax/core/transform.py")],
     ["gated outputs and states"])

prop("C07", "Windows, lags and buffers always hold the latest observations in order",
     "At every step a buffer, lag, difference, relative change or rolling mean is a function of exactly the last observations that were delivered to it, oldest first, and of its fill value where fewer have been seen. This holds for every length, shape, dtype, number of wrap-arounds and restart point, and the memory-saving buffer variants return what a plain buffer returns, up to their declared loss of resolution.",
     ["inputs", "histories", "crash_points", "configurations"],
     "all delivered sequences (losses, duplicates, bursts), window lengths, dtypes, restart points",
     "tests use one short sequence per module, mostly shorter than two windows, and no restart",
     ["modules/buffer.py", "modules/lag.py", "modules/diff.py", "modules/pct_change.py", "modules/rolling_mean.py", "flax/modules/buffer.py", "flax/modules/compressed_buffer.py", "flax/modules/lag.py", "flax/modules/diff.py", "flax/modules/pct_change.py", "flax/modules/rolling_mean.py"],
     [("Buffer", "modules/buffer.py"), ("CompressedBuffer / HierarchicalBuffer", "flax/modules/compressed_buffer.py")],
     ["module outputs per step"])

prop("C08", "Missing observations never corrupt running statistics",
     "Exponential means, variances and covariances, forward fills, bars, counters and change detectors treat a missing observation as their options say - ignored or decayed through - and never let it turn known results into missing ones, reach other components, or count as an observation. After any pattern of outages the results equal those of the documented estimator over the observations that did arrive.",
     ["fault_sequences", "inputs", "configurations", "crash_points"],
     "all outage patterns per component, all adjust / ignore_na / min_periods / initial-value settings, all restart points",
     "the tests compare one random array per setting with pandas; outages at the start, per component and around restarts are not covered",
     ["modules/ewma.py", "modules/ewmvar.py", "modules/ewmcov.py", "modules/ffill.py", "modules/ohlc.py", "modules/counter.py", "modules/has_changed.py", "modules/rolling_mean.py", "flax/modules/ewma.py", "flax/modules/ewmvar.py", "flax/modules/ewmcov.py", "flax/modules/ffill.py", "flax/modules/ohlc.py", "flax/modules/counter.py", "flax/modules/has_changed.py"],
     [("EWMA", "modules/ewma.py"), ("EWMVar", "modules/ewmvar.py"), ("Ffill", "modules/ffill.py"), ("OHLC", "modules/ohlc.py")],
     ["module outputs and states per step"])

prop("C09", "A faulty lane never contaminates the other lanes",
     "When a module processes many series side by side, element by element or lifted over a batch axis, each series' outputs and state equal those of the same series processed alone. A series that goes missing, infinite, restarts or is replaced changes nothing in any other series.",
     ["inputs", "fault_sequences", "configurations"],
     "all elementwise and lifted modules, all numbers of lanes, all faults in any lane",
     "tests process well-behaved batches and compare shapes or totals",
     ["modules/vmap.py", "modules/ewma.py", "modules/ewmvar.py", "modules/buffer.py", "modules/ohlc.py", "modules/rolling_mean.py", "modules/apply_mask.py", "modules/fill_nan_inf.py", "flax/modules/vmap.py"],
     [("vmap_lift_with_state", "modules/vmap.py")],
     ["per-lane outputs and states"])

prop("C10", "Online learning survives non-finite gradients, gaps and restarts",
     "Online learners and optimisers update their parameters at every step from that step's data alone with the current optimiser state, equal to a plain loop over loss gradients and updates. Non-finite gradients, inputs or targets leave the parameters finite where the learner promises to guard against them; parameters excluded from training never change; projections hold after every update. A restart from the saved state at any step changes nothing.",
     ["fault_sequences", "crash_points", "inputs", "configurations"],
     "all sequences of observations with outages and bad values, all optimisers, predicates and projections, all restart points",
     "tests learn one clean linear problem and look at the final loss",
     ["modules/online_optimizer.py", "modules/online_supervised_learner.py", "modules/func_optimizer.py", "modules/optax_optimizer.py", "modules/update_params.py", "modules/arma.py", "modules/snarimax.py", "flax/modules/online_optimizer.py", "flax/modules/online_supervised_learner.py", "flax/modules/optax_optimizer.py", "flax/modules/func_optimizer.py", "flax/modules/update_params.py", "flax/modules/arma.py", "flax/modules/snarimax.py", "optim/newton.py"],
     [("OnlineOptimizer", "modules/online_optimizer.py"), ("OnlineSupervisedLearner", "modules/online_supervised_learner.py"), ("OptaxOptimizer", "modules/optax_optimizer.py")],
     ["parameters, losses and optimiser state per step"])

prop("C11", "The agent-environment loop keeps order, stops cleanly and cleans up",
     "Agent and environment alternate strictly: each observation reaches the agent once, each action reaches the environment once, and rewards pair with the action that earned them. Callbacks run in registration order at every hook of every step; a stop request or an exception of agent, environment or callback ends the run at that step, the environment is closed once, and afterwards the set of active callbacks is what it was before the run, also with concurrent runs and runs inside an agent. Recorded trajectories contain exactly the steps that happened before the one with which the environment ends its episode, with the values they had.",
     ["fault_sequences", "histories", "configurations"],
     "all episode lengths, all failure and stop points, all nestings and sets of callbacks",
     "tests run one environment to its end without failures",
     ["gym/gym_unroll.py", "gym/callbacks/callbacks.py", "gym/haiku_agent.py", "gym/haiku_env.py", "gym/agent.py", "gym/env.py", "modules/gym_feedback.py", "flax/modules/gym_feedback.py"],
     [("gym_unroll", "gym/gym_unroll.py"), ("Callback registry", "gym/callbacks/callbacks.py")],
     ["recorded calls, callback registry, returned trajectories"],
     [("active callbacks", "callbacks that receive the hooks of the running loops", "gym/callbacks/callbacks.py")])

prop("C12", "Composed state machines run in dependency order and contain failures",
     "In composed state machines (HierarchicalState, HierarchicalStateManager) every component runs after the components it depends on and once per step; where outputs are passed on, dependants get those of the same step; the order does not depend on registration order or hash seed. A failing component is reported as failed and does not stop, skip or corrupt components that do not depend on it, nor its own state; cyclic or unknown dependencies are rejected.",
     ["fault_sequences", "programs", "histories", "configurations"],
     "all dependency graphs, all failing subsets and failure steps, all hash seeds",
     "tests build one small chain without failures under one hash seed",
     ["flax/core/advanced_state_patterns.py", "flax/core/streaming_transforms.py"],
     [("HierarchicalState", "flax/core/streaming_transforms.py"), ("hierarchical state manager", "flax/core/advanced_state_patterns.py")],
     ["execution order, component outputs, component states"])

prop("C13", "The profiler loses nothing and adds up under any thread interleaving",
     "For every interleaving of threads that record, read, export and reset, each completed execution is recorded exactly once with its own module, step and non-negative duration, step numbers are unique and contiguous, and summaries equal what the records imply. A reset is atomic, histories stay within their limit and keep the newest records, and jumps of the wall clock, unreadable process metrics and failing profiled code neither lose nor invent records.",
     ["schedules", "fault_sequences", "histories"],
     "all thread interleavings, wall-clock jumps, metric failures and exceptions inside profiled code",
     "tests use one thread and real time",
     ["flax/debug/profiler.py"],
     [("PerformanceProfiler lock and records", "flax/debug/profiler.py")],
     ["records, summaries, reports, exports"])

prop("C14", "The debugger captures every state exactly once under any interleaving",
     "For every interleaving of threads, each processed observation is captured exactly once with a snapshot of inputs, outputs and state that later mutation cannot change; breakpoints fire exactly when their condition holds, anomalies are reported for exactly the affected steps, and the captured history stays within its limit. Failing conditions, hooks, console input or inspected code leave the debugger usable and the result of the inspected code unchanged.",
     ["schedules", "fault_sequences", "histories"],
     "all thread interleavings, all failing breakpoint conditions, console faults and data",
     "tests use one thread and one or two breakpoints",
     ["flax/debug/debugger.py"],
     [("StreamDebugger lock, hooks and history", "flax/debug/debugger.py")],
     ["captured states, breakpoint hits, reports, exports"])

prop("C15", "The memory tracker reports true sizes and growth under any interleaving",
     "For every interleaving of threads and any memory readings, each snapshot is recorded exactly once in order, its peak and totals equal what the readings imply, growth is reported per step, and histories stay bounded. Clock jumps, unreadable process metrics and failing tracked code neither lose nor invent snapshots nor raise false leak alarms on constant memory.",
     ["schedules", "fault_sequences", "histories"],
     "all thread interleavings, memory curves, clock jumps and metric failures",
     "tests look at one thread with real memory, whose readings they cannot control",
     ["flax/debug/memory_tracker.py"],
     [("MemoryTracker lock and snapshots", "flax/debug/memory_tracker.py")],
     ["snapshots, leak reports, summaries"])

prop("C16", "The data-flow tracker accounts for every module call under concurrency",
     "For every interleaving of threads that record values, count steps, read and clear, each recorded value appears exactly once in the overall and in its module's history, in the same order, with its own module, type, shape, metadata and the value it had when recorded; the step count equals the steps made. Reads show the histories as they were at one moment and change nothing, clearing is atomic, and bounded histories keep the newest entries. Dashboards add up calls, timings and alerts exactly, streaming plots hold exactly the newest points, and record times never run backwards when the wall clock jumps.",
     ["schedules", "fault_sequences", "histories"],
     "all thread interleavings of recording, stepping, reading and clearing, failing tracked modules and clock jumps",
     "tests track one thread and one module",
     ["flax/visualization/data_flow_visualizer.py", "flax/visualization/interactive_dashboard.py", "flax/visualization/jupyter_viz.py", "flax/visualization/bokeh_viz.py"],
     [("DataFlowTracker", "flax/visualization/data_flow_visualizer.py"), ("PipelineDashboard metrics", "flax/visualization/interactive_dashboard.py")],
     ["tracked history, module data, summaries, plots"])

prop("C17", "Background monitoring threads start once, stop on request and do no harm",
     "Starting real-time monitoring, a flow animation or a dashboard server runs at most one background worker however often it is started; stopping a monitoring or an animation ends its worker within one period, may be repeated or asked for from within an update, and it can be started again afterwards. While it runs it delivers updates periodically on simulated time, a failing update or callback neither kills nor floods it, and it never changes the tracked data it shows. A worker never keeps the process alive, and a thread that cannot be started is reported and can be retried.",
     ["schedules", "fault_sequences", "histories"],
     "all interleavings of start, stop, update and tracked calls, all failures of updates and of thread creation",
     "tests start and stop once in real time, or not at all",
     ["flax/visualization/interactive_dashboard.py", "flax/visualization/jupyter_viz.py", "flax/visualization/data_flow_visualizer.py"],
     [("dashboard server thread", "flax/visualization/interactive_dashboard.py"), ("AnimatedPipelineFlow", "flax/visualization/jupyter_viz.py"), ("DataFlowVisualizer.start_real_time_monitoring", "flax/visualization/data_flow_visualizer.py")],
     ["threads alive, updates over simulated time"])

prop("C18", "An export that reports success is complete on disk; a failed one says so",
     "Whenever an export of a graph, nested graph, plot or flow animation reports success, the named file exists, is complete and readable, and contains exactly the data held when the export was made, whatever names occur in them and whatever the locale. If the disk is full, the write is short, or the file cannot be opened or closed, the caller is told, the data are unchanged, and a later retry succeeds. Exports and analyses do not influence each other.",
     ["fault_sequences", "histories", "schedules"],
     "all I/O fault points of every exporter, all names and locales, concurrent exports and recording",
     "tests export once to a healthy disk and check that the file exists",
     ["flax/visualization/computation_graph.py", "flax/visualization/nested_graph_viz.py", "flax/visualization/data_flow_visualizer.py"],
     [("ComputationGraphRenderer.render / export_graph_to_dot", "flax/visualization/computation_graph.py"), ("NestedGraphVisualizer", "flax/visualization/nested_graph_viz.py"), ("DataFlowVisualizer.save_plot / create_flow_animation", "flax/visualization/data_flow_visualizer.py")],
     ["files on the simulated disk, return values, exceptions"])

prop("C19", "Debugging, profiling and tracking never change what a model computes",
     "Wrapping a model or stream with the debugger, profiler, memory tracker or flow tracker, alone or nested in any order, leaves outputs, state, random keys and raised exceptions identical to the bare model. This holds while monitoring is switched on and off, reset or failing during the run, and the monitored model runs exactly once per step.",
     ["fault_sequences", "histories", "configurations", "schedules"],
     "all wrappers, nestings, on/off/reset schedules and failures inside wrapper or model",
     "tests check that wrapped calls return something of the right shape",
     ["flax/debug/profiler.py", "flax/debug/debugger.py", "flax/debug/memory_tracker.py", "flax/visualization/data_flow_visualizer.py"],
     [("wrapping decorators and context managers", "flax/debug/profiler.py")],
     ["outputs, states, call counts, exceptions"])

for id, title, st, files, mech in [
    ("C20", "Encoding and decoding of dates and strings is lossless",
     "Encoding any date or string array into numeric codes and decoding the codes gives the array back.", ["encode.py"], [("encode_datetime64 / string_encoder", "encode.py")]),
    ("C21", "Mask statistics and Newton steps match their formulas",
     "Masked means, deviations and normalisation and the Newton optimiser's update equal their mathematical definitions for every input.", ["modules/mask_mean.py", "modules/mask_std.py", "modules/mask_normalize.py", "optim/newton.py"], [("formulas", "modules/mask_mean.py")]),
]:
    prop(id, title, st, ["inputs"], "all inputs", "tests sample a few arrays", files, mech, ["return values"])

prop("C22", "The compiled CPU kernels agree with the streaming modules, resumed anywhere",
     "For every series with outages and every setting, the compiled exponential mean (the function and the pandas accessors) gives at every observation what the streaming module gives, in one piece or cut anywhere into parts and resumed from its saved state, also when the process restarts or series join, leave or change places between the parts. It changes neither its data nor the state it is given, and no series or session influences another.",
     ["fault_sequences", "histories", "inputs"], "all series, settings, cuts and crash points", "tests compare whole arrays of one seed and one cut",
     ["numba/ewma_numba.py"], [("ewma kernel and accessors", "numba/ewma_numba.py")], ["return values", "saved states"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
