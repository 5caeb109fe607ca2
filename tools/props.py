# Source of /verif/properties.jsonl: python3 tools/props.py > properties.jsonl
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],observe_at=observe or [],hook_needed=hook)))
IND="instance/ind_instance.go"; TB="model/simple/taskbehavior.go"; TI="instance/taskinst.go"; INS="instance/instance.go"
p("C01","Joins: a task runs once, after all incoming links, only if one was followed",
 "A task without incoming links runs when its flow starts; any other task runs exactly when every one of its incoming links has been resolved and at least one of them was followed, and it is skipped, with its outgoing links skipped in turn, when all are resolved and none was followed. Outside loops and retries no task runs more than once in a run of its flow.",
 ["programs","histories"],"all flow graphs, all outcomes of their link conditions and all orders in which branches finish",
 "the tests run two or three fixed chains; joins, diamonds, parallel links between one pair of tasks and nested skips are never executed",
 [IND,TB,"definition/definition.go"],[("join decision","(*TaskBehavior).Enter"),("task entry","(*IndependentInstance).enterTasks"),("skip propagation","(*IndependentInstance).handleTaskDone")],
 [("link status","unresolved, false, true, skipped","instance/linkinst.go"),("work queue","scheduled evaluations","IndependentInstance.workItemQueue")],["activity evaluations","task events","step records"])
p("C02","Link rules: which outgoing links a finished task follows",
 "When a task finishes, every dependency and label link out of it is followed, an expression link is followed exactly when its condition is true, an otherwise link is followed exactly when the task has expression links and none of them is followed, and an error link is not followed. Links that are not followed count as resolved. A condition that cannot be evaluated is an error of the flow and never a followed or ignored link.",
 ["programs","inputs"],"all combinations of outgoing link kinds and of condition results, including results of any type and failing conditions",
 "the tests cover no otherwise, label or error link and no failing condition",
 [TB,TI,"definition/definition_ser.go"],[("link selection","(*TaskBehavior).Done"),("condition evaluation","(*TaskInst).EvalLink")],
 [("link status","false/true/skipped","instance/linkinst.go")],["activity evaluations"])
p("C03","Error routing: error links, then the error handler, then failure",
 "When a task fails, exactly its error links are followed if it has any and the flow goes on; without error links the flow's error handler, if it has one, is run instead of the rest of the flow; without handler, or when the failing task belongs to the handler, the flow fails. The error handler of a flow runs at most once.",
 ["programs","fault_sequences"],"all small flows, all sets of failing tasks including tasks of the handler, all kinds of failure",
 "no test has an error link or an error handler",
 [IND,TB],[("error links","(*TaskBehavior).Error"),("handler","(*IndependentInstance).HandleGlobalError"),("failure","(*IndependentInstance).handleTaskError")],
 [("handling error flag","the flow is running its handler","Instance.isHandlingError")],["flow status","activity evaluations"])
p("C04","Termination: every run ends once, in a final status that agrees with its error",
 "A flow run in which every activity returns reaches a final status after finitely many steps: it is never left active with nothing to do unless an activity is waiting. The final status is announced once, never changes afterwards, and no task of that flow runs after it. A failed flow carries a non-nil error and a completed flow whose activities returned none carries none.",
 ["programs","histories","fault_sequences"],"all small flows, all outcomes of tasks and links",
 "tests only look at the happy path of fixed flows",
 [IND,INS,"model/simple/flowbehavior.go"],[("completion","(*FlowBehavior).TaskDone"),("failure","(*IndependentInstance).HandleGlobalError"),("status","(*Instance).SetStatus")],
 [("flow status","not started, active, completed, failed","Instance.status")],["flow status","flow events","returned error"])
p("C05","A caller gets exactly one final result and one completion per flow run",
 "For every run request the caller's handler receives completion exactly once, after all results, and exactly one final result: the flow's outputs if it completed, an error if it failed, panicked or ran into the step limit. A request that cannot be started is reported as an error instead; a detached run is completed at once, without waiting for the flow.",
 ["programs","fault_sequences","configurations"],"all outcomes of the run, with and without instance ids requested, replies, assertions and step limits",
 "the action test starts one flow and checks no results",
 ["action.go"],[("run","(*FlowAction).Run")],None,["result handler calls"])
p("C06","Return and reply: what a flow gives back",
 "An explicit return ends the flow at once with exactly the returned data and error, and tasks not yet run do not run; a flow that ends without one gives back its declared outputs taken from its attributes, as they are at the end. A reply is delivered immediately with exactly the replied data and does not end the flow.",
 ["inputs","programs"],"all values, all positions of the return or reply in a small flow, all declared outputs",
 "no test calls return or reply inside a flow with further tasks",
 [INS,IND,"action.go"],[("return","(*Instance).Return"),("reply","(*Instance).Reply"),("outputs","(*Instance).GetReturnData")],
 [("return data","what the flow gives back","Instance.returnData")],["result handler calls","return data"])
p("C07","Data flow: every task sees exactly the data mapped to it",
 "When a task runs, its inputs are the configured values and mapping results computed from the flow inputs and from the outputs of tasks that finished before it, and nothing else; its outputs are visible to later tasks under its id, and only there, however tasks and attributes are called. Flow inputs override declared defaults, and a mapping that fails makes the task fail instead of running with other data.",
 ["inputs","programs"],"all values and small chains and branches of tasks; literal and resolved mappings",
 "unit tests check single resolver calls, never data crossing tasks in a run",
 ["instance/util.go",TI,IND,"definition/resolve.go","definition/mapper.go"],[("input mapping","applyInputMapper"),("output mapping","applyOutputMapper"),("flow inputs","(*IndependentInstance).startInstance")],
 [("flow attributes","values visible to mappings","Instance.attrs")],["activity inputs","resolved expressions"])
p("C08","Iterator: the activity runs once per element, in order, with key and value",
 "An iterating task runs its activity once for every element of the value iterated over, in index order for numbers and arrays and once per key for objects, each time seeing that element's key, value and index, and then finishes once. It runs zero times for an empty value, whatever the activity does synchronously or asynchronously, and a value that cannot be iterated over is an error.",
 ["inputs","programs"],"all counts, arrays and objects up to the bound, all kinds of iterated values, synchronous and waiting activities",
 "the iterator tests are commented out as invalid",
 ["model/simple/iteratorbehavior.go",IND],[("iteration","(*IteratorTaskBehavior).Eval"),("async iteration","(*IteratorTaskBehavior).PostEval")],
 [("iteration data","key, value, index","working data 'iteration'")],["activity evaluations"])
p("C09","Do-while: the activity repeats exactly while its condition is true",
 "A do-while task runs its activity at least once and again exactly as long as its condition, evaluated after each run on that run's data, is true; the index counts the runs from zero. It finishes once, when the condition is false, and a failing run or condition ends the loop as an error of the task.",
 ["inputs","histories"],"all sequences of condition results up to the bound, synchronous and waiting activities",
 "the do-while test is commented out as invalid",
 ["model/simple/dowhilebehavior.go",IND],[("loop","(*DoWhileTaskBehavior).Eval"),("async loop","(*DoWhileTaskBehavior).PostEval")],
 [("iteration data","index","working data 'iteration'")],["activity evaluations"])
p("C10","Retry: a retriable failure is retried at most the configured number of times",
 "A task configured with n retries whose activity keeps failing with a retriable error is run 1+n times, waiting the configured interval before each retry, and then fails with the last error; it stops retrying at the first success and its successors then run as if it had never failed. Errors that are not retriable, and tasks without retry configuration, are never retried.",
 ["fault_sequences","configurations"],"all failure sequences and retry counts and intervals up to the bound",
 "the retry test calls helpers with fixed data",
 ["model/simple/retry.go",TB,"definition/definition.go"],[("retry","retryEval"),("decision","evalActivity")],
 [("retry data","retries left","working data")],["activity evaluations","time passed"])
p("C11","Accumulation: a loop collects the outputs of each iteration, in order",
 "For a looping task configured to accumulate, later tasks see one entry per finished iteration, in iteration order, each holding exactly the outputs of that iteration. Entries already collected never change afterwards, and without accumulation later tasks see, for each output, the value it was given last.",
 ["inputs","histories"],"all iteration counts and output values up to the bound",
 "no test runs an accumulating loop",
 [TI,"instance/util.go"],[("accumulation","(*TaskInst).handleAccumulation")],
 [("accumulated outputs","attribute _A.<task>","Instance.attrs")],["resolved expressions"])
p("C12","Subflows: called with the mapped inputs, they return to their task once",
 "A subflow task starts its subflow with exactly the mapped inputs, waits until it ends and then finishes once: with the subflow's outputs if it completed and with the subflow's error, routed like any task error of the calling flow, if it failed. Attributes of one flow are not visible in the other, and several subflows active at once do not affect each other; a detached subflow is started once and never affects its caller.",
 ["programs","fault_sequences"],"all small nestings and outcomes of subflow tasks, with and without error handlers on both levels",
 "the subflow tests check construction of the activity only",
 ["activity/subflow/activity.go","instance/util.go",IND],[("start","StartSubFlow"),("end","(*IndependentInstance).handleTaskDone"),("failure","(*IndependentInstance).HandleGlobalError")],
 [("host","task that started the subflow","Instance.host")],["activity evaluations","flow status","task outputs"])
p("C13","Instances of one flow definition never influence each other",
 "Runs that share a flow definition, whether one after the other or interleaved step by step, each behave as if they ran alone: tasks, attributes, loop and retry state, results and statuses of one are never seen in another, and running a flow never changes its definition.",
 ["schedules","inputs"],"all interleavings of the steps of two runs with different inputs and outcomes",
 "no test has two instances of one definition",
 [IND,INS,"definition/definition.go","model/simple"],[("instance creation","NewIndependentInstance")],
 [("definition","shared, read-only","definition.Definition")],["activity evaluations","results"])
p("C14","A panic in an activity, mapping or link is contained and becomes an error",
 "A panic raised while a task is executed, in its activity, its mappings, its loop condition or a link condition, never escapes from stepping the flow: it is handled exactly like an error of that task or flow. The flow still reaches a final status and other runs are unaffected.",
 ["fault_sequences","programs"],"all places at which user-supplied code can panic, in flows with and without error links and handler",
 "no test panics inside a flow",
 [IND,TI],[("recovery","(*IndependentInstance).execTask"),("recovery","(*TaskInst).EvalActivity"),("recovery","(*TaskInst).EvalLink")],None,["flow status","flow error"])
p("C15","A serialised and restored instance continues as the original would",
 "Serialising a flow instance between any two steps and restoring it gives an instance with the same status, attributes, task and link states and pending work; continuing it runs exactly the tasks the original would still have run, with the same data and the same final result.",
 ["crash_points","programs"],"every cut between two steps of all small flows",
 "the serialisation test marshals one fixed state and does not continue it",
 ["instance/instance_ser.go",IND],[("serialise","MarshalJSON"),("restore","UnmarshalJSON"),("restart","(*IndependentInstance).Restart")],
 [("work queue","pending evaluations","IndependentInstance.workItemQueue")],["JSON form","activity evaluations after restart"])
p("C16","Step records are complete and are never altered by later execution",
 "With recording on, the records of a run describe every change of flow status, attributes, task and link states and pending work that the run made, each in the step in which it happened and numbered without gaps. A record once extracted is unaffected by anything that runs later.",
 ["histories","programs"],"all steps of all small flows, with values that are modified later",
 "the change tests append single changes by hand",
 ["instance/instance_chg.go","state/change","state/step.go"],[("tracking","SimpleChangeTracker"),("extraction","ExtractStep")],
 [("current step","changes since the last extraction","SimpleChangeTracker.currentStep")],["recorded steps"])
p("C17","Replaying step records reproduces the state of the recorded instance",
 "Combining the records of the first n steps of a run gives the state the instance was in after n steps: status, attribute values, tasks and links with their statuses, pending work and subflows. Combining them never modifies the records.",
 ["crash_points","histories"],"every prefix of the records of all small flows; arbitrary record sequences up to the bound",
 "the state test combines one hand-written list",
 ["state/util.go","state/snapshot.go","state/change"],[("replay","StepsToSnapshot")],None,["snapshots"])
p("C18","Listeners, recorders and tracing never change what a flow does",
 "Running a flow with any combination of event listeners, state recording and tracing, including recorders that fail, executes the same tasks with the same data in the same order and ends with the same status, outputs and error as without them.",
 ["configurations","programs","fault_sequences"],"all combinations of observers over small flows, and all failures of the recorder",
 "no test compares two runs",
 ["instance/recorder.go","instance/flowevents.go","instance/taskevents.go",IND,"action.go"],[("recording","(*IndependentInstance).RecordState"),("events","postFlowEvent"),("events","postTaskEvent")],None,["activity evaluations","results"])
p("C19","Test interceptors and patches change exactly the tasks they name",
 "An interceptor replaces the named inputs, or skips the activity and supplies the outputs, of exactly the tasks it names, coerced to the declared types, and every other task runs unchanged; its assertions are evaluated on the actual data of the task, or outcome of the flow, and reported with their actual result. A patch replaces exactly the mappings it names.",
 ["inputs","configurations"],"all interceptor entries over a small flow, all values and assertion results",
 "no test runs a flow with an interceptor",
 ["support/interceptor.go","support/patch.go","instance/util.go"],[("inputs","applyInputInterceptor"),("outputs","applyOutputInterceptor"),("assertions","applyAssertionInterceptor")],None,["activity evaluations","assertion results"])
p("C20","A flow definition is loaded completely and faithfully, or rejected",
 "A flow definition either loads into a flow with exactly the described tasks, links with their kinds, ends and conditions, inputs, outputs and error handler, or is rejected with an error; loading never panics. Links to unknown tasks, tasks of one id, unknown task types and activities and malformed conditions are rejected, a link of an unknown kind is taken as a dependency link, and loading the same description twice gives equal flows.",
 ["inputs","programs"],"all small descriptions with valid and invalid parts, link kind names of bounded length in any case",
 "the tests load a few valid descriptions",
 ["definition/definition_ser.go","definition/definition.go"],[("loading","NewDefinition"),("links","createLink"),("tasks","createTask")],None,["definition accessors"])
p("C21","Loop, retry and delay settings mean what they say in every accepted form",
 "Retry counts, intervals, loop bounds and delays given as numbers, numeric text or expressions take effect with exactly the given value, whatever form is used; values of unusable form are rejected with an error at load time or when first used, and are never silently replaced by another value.",
 ["inputs","configurations"],"all integers and the accepted forms; text of bounded length",
 "tests use one literal of each",
 ["definition/definition_ser.go","definition/definition.go"],[("loop settings","getLoopCfgDef"),("retry settings","getRetryOnErrCfg")],None,["definition accessors","activity evaluations"])
p("C22","Recording modes: text form, environment and what is recorded agree",
 "Every recording mode is recognised from its text form in any letter case and any other text is rejected; full records steps and snapshots, debugger only what it is documented to, step only steps, snapshot only snapshots and off nothing. What the recorder receives during a run is exactly what the mode in force allows, besides the start and end of the run, which are reported in every mode.",
 ["inputs","configurations"],"all text up to the bound, all modes over small flows",
 "no test exercises the modes in a run",
 ["state/recorder.go","instance/recorder.go","action.go"],[("parsing","ToRecordingMode"),("recording","(*IndependentInstance).RecordState")],None,["recorder calls"])
p("C23","References in mappings resolve to the named value or to an error",
 "Every reference form offered to mappings and conditions (flow, activity output, error data, iteration and flow context) yields exactly the value it names at the moment it is evaluated, with the innermost scope that defines it winning, and an error when the named thing does not exist (a last field that an object lacks is nothing); resolution never changes any value.",
 ["inputs","programs"],"all reference forms, names and scopes up to the bound",
 "resolver tests check fixed names",
 ["definition/resolve.go","instance/scopes.go"],[("activity references","ActivityResolver"),("error references","ErrorResolver"),("iteration references","IteratorResolver")],None,["resolved values"])
p("C24","Error data describes the task that failed and its error",
 "When an error link is followed or an error handler runs, the error data visible there names the failed task and holds the message, kind, code and data of the error that occurred, both for the flow as a whole and under the failing task's name. A later error of another task does not change the data recorded under the first one.",
 ["inputs","fault_sequences"],"all error kinds, codes and failing tasks of small flows",
 "no test reads error data in a flow",
 [TI,"definition/resolve.go"],[("error object","(*TaskInst).getErrorObject")],None,["resolved error references"])
p("C25","The flow manager returns, for each flow URI, the flow that URI names",
 "Looking up a flow by URI returns the definition registered or provided under exactly that URI, builds it at most once and returns the same definition every time; a failed lookup is an error, is not remembered as a success and does not affect other URIs. A flow is read plain or gzip compressed from a file, and plain or, where the response says so, gzip compressed and base64 encoded over http, with the same result.",
 ["histories","inputs"],"all sequences of lookups and registrations up to the bound, with failures of the provider",
 "the manager has no tests",
 ["support/manager.go","support/resource.go","support/definition.go","definition/provider.go"],[("lookup","(*FlowManager).GetFlow"),("materialise","(*FlowManager).materializeFlow")],
 [("flow cache","definitions by URI","FlowManager.rfMu/remoteFlows")],["returned definitions"])
p("C26","Flow and task instance ids and flow context values are distinct and correct",
 "Within a run the main flow has the given id and every subflow an id of its own derived from it that is never reused; each flow sees its own name and id and those of the flow that called it, and the main flow sees empty parent values. Ids requested by the caller are used and returned unchanged, and the id of the event a flow is run for is held by it and by detached flows it starts.",
 ["programs","histories"],"all small nestings and sequences of subflows",
 "no test looks at the ids of subflows",
 [IND,INS,"action.go"],[("subflow ids","(*IndependentInstance).newEmbeddedInstance"),("context values","(*IndependentInstance).startInstance")],None,["flow context values","ids"])
p("C27","Events mirror exactly the status changes of flows and tasks",
 "A registered listener receives one event for every status change of every flow and task, in the order in which they happen, with the name, id, parent (the flow calling it) and status at that moment; the event of a task or flow that is done holds its inputs and outputs, that of one that failed its error. It receives none for other changes, such as setting the status a task already has.",
 ["programs","histories"],"all small flows and outcomes",
 "the event packages have no tests",
 ["instance/flowevents.go","instance/taskevents.go","support/event"],[("flow events","postFlowEvent"),("task events","postTaskEvent"),("status mapping","convertFlowStatus")],None,["listener calls"])
p("C28","Tracing: every span started is finished exactly once, with its outcome",
 "With tracing on, every execution of a task and every flow has a span under the span of its flow or task, and by the end of the run each span has been finished exactly once: with an error if that execution failed and without one if it succeeded. The span of a subflow names the flow calling it, that of a flow run for an event names the event, and what a flow no longer waits for when it ends is finished as well.",
 ["programs","fault_sequences"],"all small flows with failures, retries, loops and subflows",
 "no test enables tracing",
 [IND,TI,TB,"action.go"],[("task spans","(*TaskInst).EvalActivity"),("flow spans","(*IndependentInstance).newEmbeddedInstance")],None,["tracer calls"])
p("C29","Order: ready successors run in the documented priority order",
 "Those successors that become runnable when a task finishes are run in the documented order of link kinds - label, otherwise, expression, dependency - and within one kind starting with the link declared last; with expression links prioritised the order is expression, otherwise, label, dependency. A setting that is no truth value leaves the default in force, and nothing but the order depends on it.",
 ["configurations","programs"],"all combinations of up to four outgoing links, with and without the priority setting",
 "the sorting test sorts two fixed lists and never runs a flow",
 [TB,"support/env.go",IND],[("sorting","SortTaskEntries"),("codes","getEnterCode")],None,["order of activity evaluations"])
p("C30","Concurrent execution gives the results of sequential execution",
 "With concurrent task execution enabled, a flow ends in the same status with the same outputs as without, for every scheduling of its tasks: no task is lost, run twice or run before its predecessors, and no data is corrupted.",
 ["schedules"],"all schedules of the tasks of a flow",
 "the tests never enable the mode",
 [IND,INS],[("concurrent stepping","(*IndependentInstance).DoStepInLoop")],None,["results"])
p("C31","Flow tester requests run the requested operation with the requested data",
 "A start, restart or resume request handed to the flow tester runs the flow it names (from the given state if it holds one) with the data, mocks and patches given and is answered with the id of the instance, which a resumed flow keeps; a request that is malformed, lacks the state or names an unknown flow is answered with an error status and runs nothing.",
 ["inputs"],"all requests with present and absent parts",
 "the tester package has no tests",
 ["tester/request.go","tester/service.go","tester/server.go"],[("requests","(*RequestProcessor).StartFlow")],None,["started flows","responses"])
p("C33","Coverage data names exactly what was executed",
 "Coverage collected during a test run contains one entry for every task that was executed (loops and retries included once, in the order in which tasks ended), every link that was followed and every subflow that was called, with its flow, inputs, outputs and error, and none for tasks that were skipped or never reached.",
 ["programs"],"all small flows and outcomes",
 "no test collects coverage",
 [IND,"instance/linkinst.go","support/interceptor.go"],[("tasks","(*IndependentInstance).addActivityToCoverage"),("links","(*LinkInst).addLinkToCoverage")],None,["collected coverage"])
p("C34","On-demand flows run the given flow with the mapped inputs",
 "An on-demand request runs exactly the flow definition it carries, once, with the inputs its input mappings produce, and is completed once after it was answered with the id of the flow (unless the flow replies explicitly), its replies and its outputs or error; a request whose package is missing or malformed or whose definition or mappings fail is refused with an error and runs nothing.",
 ["inputs","fault_sequences"],"all values, mappings and flow outcomes up to the bound",
 "the test runs one fixed request",
 ["ondemand/action.go"],[("run","(*FlowAction).Run"),("mappings","ApplyMappings")],None,["result handler calls"])
p("C35","Flow models: names, kinds of tasks, and a flow runs with its own model",
 "A registered flow model is found under exactly its name and under no other; a name can be taken once, and registering no model or a taken name is refused; the default model is the one registered as such last and is used by the flows that name no model. The kinds of tasks a flow may have are exactly those of its model, and an unknown model or kind is reported as an error. Every flow, subflows and restored flows included, runs with the behaviours of its own model for its own kinds of tasks and never with those of another one.",
 ["histories","configurations"],"all registration sequences up to the bound, known and unknown names, flows and subflows of different models, stopped and restored at any step",
 "the registry test registers one model",
 ["model/registry.go","model/model.go","util/modelvalidator.go",IND,"instance/instance.go"],[("registry","Register"),("validation","IsValidTaskType"),("running","(*IndependentInstance).DoStep"),("subflows","newEmbeddedInstance")],None,["registry results","behaviours called"])
p("C36","The step limit stops runaway flows and nothing else",
 "A flow that needs no more steps than the limit is never stopped by it, also not if it fails in the last of them: it does and results in what it would without limit. One that would run on is stopped with a single error naming the limit after no more than the configured number of steps plus one, whether it is run by the flow action, on demand, or continued from a stored state. A limit setting that is not a positive number leaves the default in force.",
 ["configurations","programs"],"all limits and flow lengths up to the bound, all limit settings of bounded length",
 "no test reaches the limit",
 ["action.go","ondemand/action.go","util/util.go",IND],[("limit","(*FlowAction).Run"),("on demand","ondemand.(*FlowAction).Run"),("setting","GetMaxStepCount")],None,["result handler calls","activity evaluations"])
p("C37","Activities are made with, reconfigured to, and cleaned up with their flow",
 "Loading a flow makes one activity per task with a factory and hands it the task's and flow's name and the task's settings, with expressions evaluated and values of the declared type; a flow with a setting that cannot be resolved is refused. Reconfiguring a flow gives every reconfigurable activity whose task has settings exactly once the new settings resolved the same way; a task whose new settings cannot be resolved keeps the old ones and does not keep other tasks from being reconfigured, nor does an activity that refuses. Cleaning a flow up cleans up each of its own activities exactly once, those of the error handler included, whatever others do, and no shared ones.",
 ["configurations","faults"],"all settings of a task, valid or not, all flows up to the bound, and all failing activities",
 "no test reconfigures or cleans up a flow",
 ["definition/definition.go","definition/definition_ser.go"],[("making","createActivityConfig"),("reconfiguring","(*Definition).Reconfigure"),("cleaning up","(*Definition).Cleanup")],None,["calls of the activities","settings they are given"])
p("C38","Values that do not match their schema fail the task",
 "With schema validation on, a task whose input has a schema and does not match it fails without its activity being run, and one whose output does not match its schema fails with that error, in every run of a loop and also when it finished only after waiting for a subflow; the failure is handled like any other. Values that match, that have no schema, or belong to an activity that bypasses validation are never rejected, nor is anything while validation is off. An activity sees the schemas of its task, and a flow with a malformed or unknown schema is refused.",
 ["inputs","configurations"],"all values and schema bounds, all ways to write a schema and to switch validation",
 "no test uses a schema",
 ["instance/taskinst.go","definition/definition_ser.go","definition/definition.go"],[("validation","(*TaskInst).EvalActivity"),("after waiting","(*TaskInst).PostEvalActivity"),("loading","createActivityConfig")],None,["activity evaluations","task outcome","error data"])
p("C39","A run follows its options and its start, steps and end reach the recorder",
 "However a flow is run - started, restarted or resumed, from whatever step, detached or not, as a rerun or not - it has the id given for it (a new one if none is given; a resumed run keeps its id), sees the data and the event it is given, and its outcome is told once. A caller that asks for the id of the run is told it first; a caller is told exactly once that the run is done: of a detached run at once, of any other one after its outcome. In every recording mode the recorder is told exactly once that the run starts, before anything else, and exactly once that it ends, after everything else, both with the id, flow and inputs of the run, the first with the run it repeats, the last with its status and outputs. The recorded steps are those the run makes, numbered one after the other: from 0, its start, or from the step a restarted run goes on with; each tells its run and whether this is a rerun. A request that cannot be run - with an operation there is not, without the state to go on from or with the state of a flow that is gone or has lost tasks or links of it - is refused; it runs nothing, records nothing and has no outcome.",
 ["options","schedules","inputs"],"all combinations of options, all inputs and step numbers within the bounds",
 "no test runs a flow with options or a recorder",
 ["action.go","instance/recorder.go","instance/instance_chg.go","instance/ind_instance.go"],[("options","(*FlowAction).Run"),("steps","(*IndependentInstance).RecordState"),("restart","(*IndependentInstance).Restart"),("start and end","(*IndependentInstance).GetFlowState")],None,["results and completion told to the caller","records in order","run id"])
for x in P: print(json.dumps(x))
