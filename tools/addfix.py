import json,subprocess
M={"3743b9c":("C18","a module named 'main' (or like a cluster) was replaced in graphs and nested graphs by the node of the function (or cluster)"),
"f0429d7":("C17","text monitoring could not be stopped from within an update: joining the own thread raised"),
"b2f447b":("C17","the flow animation never updated stages whose names contain ' Data'"),
"7d64da4":("C18","a node name with '</script>' ended the script element of nested graph pages: the rest of the data became page text"),
"c36a44b":("C06","UpdateOnEvent raised, or did not hold the state, when the gated module uses modules built outside of it and handed over"),
"15def49":("C06","UpdateOnEvent around the Haiku OnlineOptimizer raised: every instance made an output type of its own"),
"45a2c67":("C06","UpdateOnEvent around GymFeedback raised: every instance made an output type of its own"),
"9623a80":("C03","apply_with_state raised for modules whose state is in collections other than state and cache (OnlineOptimizer, FuncOptimizer)"),
"9fa2d50":("C22","resuming the numba exponential mean changed the saved state it was given"),
"9134282":("C22","columns unknown to the saved state of the numba exponential mean never got a value"),
"734f5a1":("C22","the numba exponential mean of integer values was wrong"),
"e7acfba":("C12","HierarchicalState could not be constructed and ran modules in the order of their names"),
"db0d802":("C12","hierarchical state machines ran in registration order and accepted cyclic or unknown dependencies"),
"1e1576a":("C12","a failing component left its half-made state and those of its parts in the machine, or stopped independent components"),
"398210e":("C10","optimisers that need the parameters (weight decay) raised in OptaxOptimizer"),
"cf74c16":("C10","FuncOptimizer raised on functions with a state, UpdateParams without a predicate"),
"27c6723":("C10","an infinite gradient made the parameters of online optimisers NaN for ever"),
"97dbed9":("C10","Flax predicates could only train all or none of the parameters of a module"),
"8c5f46d":("C10","Flax OnlineOptimizer raised for models with a state, plain functions and projections"),
"a9d741c":("C10","Flax FuncOptimizer raised on functions with a state and on predicates"),
"947faf1":("C10","the Flax OnlineSupervisedLearner never changed its parameters"),
"06d6255":("C10","the result of the Flax OnlineOptimizer could not leave jit or scan"),
"a8a6d70":("C10","the Flax ARMA filtered with the current input in the place of its previous outputs and inputs"),
"e5be109":("C03","Flax OnlineOptimizer, FuncOptimizer and UpdateParams crashed with the default params_predicate=None"),
"76557e3":("C03","Flax Buffer could not continue from a state restored as NumPy arrays"),
"4ae9e00":("C07","CompressedBuffer/HierarchicalBuffer returned unordered ring contents or zeros on steps without an update"),
"3570bd6":("C07","Haiku Lag(return_state=True) and PctChange(fill_method=none) raised on every input"),
"667fd17":("C07","Flax Buffer lost the order of its window once its int32 write counter overflowed (2**31 observations)"),
"72a93ca":("C07","sketching CompressedBuffer could not continue from a state restored as NumPy arrays"),
"6de7108":("C01","buffered streams of multi-dimensional data: access_data masked rows of the flattened data instead of whole observations"),
"1589101":("C01","Stream.merge read (and lost) the first observation of every secondary stream when it was already in stream_obs"),
"d9065ad":("C01","constant (non time-indexed) arrays were indexed by step / truncated instead of being delivered whole to each step"),
"587bf6d":("C01","unroll_stream(skip_first=True) put all leaves in one shared list, so outputs of different leaves were mixed"),
"89b48be":("C02","gym_static_unroll dropped the output of the first step when skip_first=False"),
"30dc6af":("C02","transform_batch_with_state ignored the rng key given to apply"),
"558a869":("C02","Counter and OnlineOptimizer modified the caller's saved numpy state in place, so a second resume from it differed"),
"65f1228":("C08","Flax OHLC took missing inputs into its bars (NaN open/high/low/close)"),
"fc35a2e":("C06","StreamingScan with a reset function raised under jit"),
"e3993d4":("C06","streaming_scan could not run models that need a rng key"),
"d7c6d43":("C06","streaming_scan reset a resumed run to the state it was resumed from instead of its first state"),
"d094b58":("C09","masked deviations and normalisation along the last axis mixed the statistics of different rows"),
"8a340c2":("C13","profile_streaming recorded two metrics (one of them zero seconds) for every execution"),
"2a1e615":("C13","profiled durations were negative or wrong after a jump of the wall clock"),
"b44eb53":("C13","unreadable process metrics made leaving a profiled block raise and lose the record"),
"79cd69c":("C13","module times and bottlenecks grew without limit; a returned result lost its bottlenecks at the next reset"),
"3d881a9":("C13","create_performance_report raised KeyError for a session without records"),
"8e8804a":("C14","captured states, inputs and outputs shared NumPy arrays and nested containers with the inspected code; named tuples became strings"),
"854a66f":("C14","a debug condition without a truth value (vector comparison) raised into the inspected code"),
"f99f90b":("C14","a debug condition that adds or removes a hook raised into the inspected code"),
"e69e81a":("C14","a breakpoint without a readable console raised into the inspected code"),
"25bf28e":("C14","performance monitors alerted again on later steps without a measured time"),
"1842c71":("C14","performance data grew without limit and exports changed after they were returned"),
"765259c":("C14","debugged durations followed jumps of the wall clock; a zero duration was reported as none"),
"cbdb922":("C14","state_change_detector missed changes of arrays made in place"),
"efc573d":("C15","unreadable process metrics other than a missing psutil raised into the tracked code"),
"cb9af22":("C15","growth rates were per snapshot times the snapshot interval instead of per step"),
"4a6d967":("C15","detected leaks and per-module histories grew without limit"),
"ce0dfd5":("C15","the session duration followed jumps of the wall clock"),
"df417b8":("C16","DataFlowTracker lost or mixed records under concurrency, kept references to arrays changed later, its times followed wall-clock jumps, get_recent_data(0) returned everything"),
"d729d50":("C16","dashboards lost calls and metrics under concurrent updates"),
"0092c8d":("C16","streaming plots lost points under concurrent updates"),
"ba1caa1":("C17","AnimatedPipelineFlow started several threads, kept the process alive and died on a failing update"),
"dd25e76":("C17","text and matplotlib monitoring started repeatedly, could not be stopped and died on a failing update"),
"3a6c525":("C17","create_flow_animation changed the tracker it showed"),
"63a269c":("C17","the dashboard server started again on every call"),
"9fd6cf1":("C18","names with quotes, backslashes or HTML characters made exported DOT graphs and HTML pages unreadable"),
"ea3fe52":("C18","text exports failed or were not UTF-8 under other locales"),
"2bbbbeb":("C18","nested graph analyses changed results returned before and concurrent ones"),
"8f69fbe":("C19","output that cannot be written (full disk, closed, other encoding) raised out of debug hooks into the debugged code"),
"204b9c1":("C19","recording a value that cannot be copied raised into the tracked code"),
"366882c":("C19","recording a value whose shape cannot be asked for raised into the tracked code"),
"2c403ff":("C19","a captured value that can be neither copied nor printed (a donated JAX array) raised into the debugged code"),
"ca6a831":("C19","monitoring a transformed function without naming it raised AttributeError"),
"458b4a6":("C11","active callbacks ran in the order of a set of functions, not of their registration"),
"0338196":("C11","leaving the context of a registered callback unregistered it"),
"fd36308":("C11","a concurrent or nested unroll, or a change of the callbacks during one, lost or restored the wrong active callbacks"),
"23e9e57":("C11","an unroll in which agent, environment or a callback fails did not close the environment"),
"a8da09c":("C11","Stop counted the steps of all runs together: later runs ended at their first step"),
"f54e0ea":("C11","entering a ProgressBar gave None; its second run failed or updated a closed bar"),
"adeabad":("C11","Record kept references to arrays which environment and agent reuse: all rows equalled the last"),
"4d57b95":("C11","the Flax GymFeedback called its agent twice, and an agent which raises TypeError was called again with other arguments"),
"7b1d4c8":("C11","entering a callback which is entered already made its exits fail"),
"b4ac8dc":("C04","data with a coordinate that holds dates but is no dimension could not be streamed (taken for a second stream)"),
"f5d6c47":("C04","data of small integer, half precision or complex dtype raised KeyError"),
"7f64fe4":("C04","formatted applications with skip_first raised: outputs were labelled with all steps"),
"40d92f4":("C04","frames with several levels silently lost steps (and columns) without any value"),
"c4da69f":("C04","the second of two outputs of a module was labelled with the columns when there were as many columns as steps"),
"75f5154":("C04","ewm().mean() of integer containers failed or truncated"),
"257378d":("C04","format_dataframe raised when the dimensions were given as one array"),
"f985ac2":("C02","the state of GymFeedback could not be serialised (class defined in a function)")}
path="/verif/known_findings.jsonl"
L=open(path).read().splitlines()
have="\n".join(L)
for c in subprocess.run("git -C /repo log --reverse --format=%h aacd1a9..HEAD",shell=True,capture_output=True,text=True).stdout.split():
    if c in have or c not in M: continue
    p,w=M[c]
    L.append(json.dumps({"status":"fixed","property":p,"commit":c,"what":w,"entry":f"fixed: property={p} {c} {w}"}))
open(path,"w").write("\n".join(L)+"\n")
