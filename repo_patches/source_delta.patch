From dd16d24307c6516942a4e7025610f9b69ab23bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 01/64] fix: enter all successors before acting on skipped ones

A task reached by two links of one batch, directly or through a skipped task,
was entered a second time after it had been released and stayed in that state
for ever, so that the flow never completed.
---
 instance/ind_instance.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 30df8b7..b8d1d23 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -725,8 +725,19 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		defer inst.actSchedLock.Unlock()
 	}
 
+	// Enter all the tasks before acting on the results, because handling a skipped task enters its
+	// successors and these can be among the tasks to enter. A task reached by several links is entered once.
+	var taskInsts []*TaskInst
+	var enterResults []model.EnterResult
+	entered := make(map[string]bool, len(taskEntries))
+
 	for _, taskEntry := range taskEntries {
 		//logger.Debugf("EnterTask - TaskEntry: %v", taskEntry)
+		if entered[taskEntry.Task.ID()] {
+			continue
+		}
+		entered[taskEntry.Task.ID()] = true
+
 		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
 		taskInst, _ := activeInst.FindOrCreateTaskInst(taskEntry.Task)
 		if inst.concurrentExec && taskInst.scheduled {
@@ -734,16 +745,20 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 			continue
 		}
 		taskInst.id = taskInst.taskID
-		enterResult := behavior.Enter(taskInst)
-		if enterResult == model.EREval {
+		taskInsts = append(taskInsts, taskInst)
+		enterResults = append(enterResults, behavior.Enter(taskInst))
+	}
+
+	for i, taskInst := range taskInsts {
+		if enterResults[i] == model.EREval {
 			err := applySettingsMapper(taskInst)
 			if err != nil {
 				return err
 			}
 			taskInst.scheduled = true
 			inst.scheduleEval(taskInst)
-		} else if enterResult == model.ERSkip {
-			inst.handleTaskDone(behavior, taskInst)
+		} else if enterResults[i] == model.ERSkip {
+			inst.handleTaskDone(inst.flowModel.GetTaskBehavior(taskInst.task.TypeID()), taskInst)
 		}
 	}
 
-- 
2.43.0


From d823048a332027860ec1dc197817eae7c002ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 02/64] fix: treat a panic while evaluating a link as an error

---
 instance/taskinst.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 1a921e4..009e899 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -271,7 +271,8 @@ func (ti *TaskInst) EvalLink(link *definition.Link) (result bool, err error) {
 			ti.logger.Warnf("Unhandled Error evaluating link '%s' : %v\n", link.ID(), r)
 			ti.logger.Debugf("StackTrace: %s", debug.Stack())
 
-			if err != nil {
+			if err == nil {
+				result = false
 				err = fmt.Errorf("%v", r)
 			}
 		}
-- 
2.43.0


From e7cc6edfe07632b564695d9d0a8f2e3ebf0c0b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 03/64] fix: fail a flow with its error when its error handler
 fails

---
 instance/ind_instance.go | 47 ++++++----------------------------------
 1 file changed, 7 insertions(+), 40 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index b8d1d23..0ce4d53 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -413,11 +413,9 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 			//logger.Debugf("StackTrace: %s", debug.Stack())
 
 			if !taskInst.flowInst.isHandlingError {
-
 				taskInst.appendErrorData(NewActivityEvalError(taskInst.task.Name(), "unhandled", err.Error()))
-				inst.HandleGlobalError(taskInst.flowInst, err)
 			}
-			// else what should we do?
+			inst.HandleGlobalError(taskInst.flowInst, err)
 		}
 	}()
 
@@ -628,35 +626,10 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 
 		containerInst.releaseTask(taskInst.Task())
 	} else {
-		if containerInst.isHandlingError {
-			//fail
-			containerInst.SetStatus(model.FlowStatusFailed)
-
-			if containerInst != inst.Instance {
-				// Complete SubflowCreated trace
-				if containerInst.tracingCtx != nil {
-					_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, err)
-				}
-
-				//Finished Subflow with error
-				if containerInst != nil && containerInst.master != nil {
-					containerInst.master.RecordState(time.Now().UTC())
-				}
-				// spawned from task instance
-				host, ok := containerInst.host.(*TaskInst)
-
-				if ok {
-					host.returnError = err
-					inst.scheduleEval(host)
-				}
-			} else {
-				taskInst.appendErrorData(err)
-			}
-
-		} else {
+		if !containerInst.isHandlingError || containerInst == inst.Instance {
 			taskInst.appendErrorData(err)
-			inst.HandleGlobalError(containerInst, err)
 		}
+		inst.HandleGlobalError(containerInst, err)
 		return
 	}
 
@@ -665,18 +638,13 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 // HandleGlobalError handles instance errors
 func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err error) {
 
-	if containerInst.isHandlingError {
-		//todo: log error information
-		containerInst.SetStatus(model.FlowStatusFailed)
-		return
-	}
-
+	handlingError := containerInst.isHandlingError
 	containerInst.isHandlingError = true
 
 	flowBehavior := inst.flowModel.GetFlowBehavior()
 
-	//not currently handling error, so check if it has an error handler
-	if containerInst.flowDef.GetErrorHandler() != nil {
+	//if not currently handling error, check if it has an error handler
+	if !handlingError && containerInst.flowDef.GetErrorHandler() != nil {
 
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
@@ -693,6 +661,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	} else {
 		// Print error message if no error handler
 		inst.logger.Error(err)
+		containerInst.returnError = err
 		containerInst.SetStatus(model.FlowStatusFailed)
 
 		if containerInst != inst.Instance {
@@ -712,8 +681,6 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 				host.returnError = err
 				inst.scheduleEval(host)
 			}
-		} else {
-			inst.returnError = err
 		}
 	}
 }
-- 
2.43.0


From 1afd24299da3621f461daa6f136f03fadd93cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 04/64] fix: do not run tasks of a flow that has ended or is
 handling an error

---
 instance/ind_instance.go |  6 +++++-
 instance/taskinst.go     | 21 +++++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 0ce4d53..ade49af 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -419,6 +419,10 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 		}
 	}()
 
+	if taskInst.isObsolete() {
+		return
+	}
+
 	var err error
 	var evalResult model.EvalResult
 
@@ -649,7 +653,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
 		//clear existing instances
-		inst.taskInsts = make(map[string]*TaskInst)
+		containerInst.taskInsts = make(map[string]*TaskInst)
 
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
 		err := inst.enterTasks(containerInst, taskEntries)
diff --git a/instance/taskinst.go b/instance/taskinst.go
index 009e899..41fd333 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -178,6 +178,27 @@ func (ti *TaskInst) SetStatus(status model.TaskStatus) {
 	postTaskEvent(ti)
 }
 
+// isObsolete checks if the task is not to be executed anymore, because its flow, or a flow calling it, has ended
+// or is running its error handler instead
+func (ti *TaskInst) isObsolete() bool {
+	for ti != nil {
+		flowInst := ti.flowInst
+		if flowInst.lock != nil {
+			flowInst.lock.RLock()
+		}
+		current := flowInst.taskInsts[ti.taskID]
+		ended := flowInst.status >= model.FlowStatusCompleted
+		if flowInst.lock != nil {
+			flowInst.lock.RUnlock()
+		}
+		if ended || current != ti {
+			return true
+		}
+		ti, _ = flowInst.host.(*TaskInst)
+	}
+	return false
+}
+
 // UpdateTaskToTracker update task to tracker
 func (ti *TaskInst) UpdateTaskToTracker() {
 	ti.flowInst.master.changeTracker.TaskUpdated(ti)
-- 
2.43.0


From 0e32e3af1b329c0fdb523ee0e4df665438e2fd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 05/64] fix: complete a flow only once

---
 instance/ind_instance.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index ade49af..0fd965e 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -503,6 +503,12 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 	flowDone := false
 	task := taskInst.Task()
 
+	if containerInst.status >= model.FlowStatusCompleted {
+		// flow already ended, e.g. because of another task skipped together with this one
+		containerInst.releaseTask(task)
+		return
+	}
+
 	if notifyFlow {
 		flowBehavior := inst.flowModel.GetFlowBehavior()
 		flowDone = flowBehavior.TaskDone(containerInst)
-- 
2.43.0


From b0d65971249899ac1d1a960d8cb5c037472236ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 06/64] fix: complete a flow without start tasks

---
 instance/ind_instance.go | 115 ++++++++++++++++++++++-----------------
 1 file changed, 65 insertions(+), 50 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 0fd965e..588cdca 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -248,6 +248,12 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 	ok, taskEntries := flowBehavior.Start(toStart)
 
 	if ok {
+		if len(taskEntries) == 0 {
+			//nothing to do, so the flow is done
+			inst.completeFlow(toStart)
+			return ok
+		}
+
 		err := inst.enterTasks(toStart, taskEntries)
 		if err != nil {
 			//todo review how we should handle an error encountered here
@@ -515,56 +521,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 	}
 
 	if flowDone || containerInst.forceCompletion {
-		//flow completed or return was called explicitly, so lets complete the flow
-		flowBehavior := inst.flowModel.GetFlowBehavior()
-		flowBehavior.Done(containerInst)
-		flowDone = true
-		containerInst.SetStatus(model.FlowStatusCompleted)
-
-		if containerInst != inst.Instance {
-			//not top level flow so we have to schedule next step
-			// Complete subflow trace
-			if containerInst.tracingCtx != nil {
-				_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, nil)
-			}
-
-			// spawned from task instance
-			host, ok := containerInst.host.(*TaskInst)
-
-			if ok {
-				host.SetOutputs(containerInst.returnData)
-				// Reset error if any
-				host.returnError = nil
-				//Sub flow done
-				containerInst.master.GetChanges().SubflowDone(containerInst)
-				inst.scheduleEval(host)
-			}
-
-			//if containerInst.isHandlingError {
-			//	//was the error handler, so directly under instance
-			//	host,ok := containerInst.host.(*EmbeddedInstance)
-			//	if ok {
-			//		host.SetStatus(model.FlowStatusCompleted)
-			//		host.returnData = containerInst.returnData
-			//		host.returnError = containerInst.returnError
-			//	}
-			//	//todo if not a task inst, what should we do?
-			//} else {
-			//	// spawned from task instance
-			//
-			//	//todo if not a task inst, what should we do?
-			//}
-
-			// flow has completed so remove it
-			if inst.subFlowLock != nil {
-				inst.subFlowLock.Lock()
-				defer inst.subFlowLock.Unlock()
-			}
-			delete(inst.subflows, containerInst.subflowId)
-		} else {
-			containerInst.master.GetChanges().FlowDone(inst)
-		}
-
+		inst.completeFlow(containerInst)
 	} else {
 
 		if !propagateSkip {
@@ -581,6 +538,59 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 	containerInst.releaseTask(task)
 }
 
+// completeFlow completes the flow instance and, if it is a subflow, lets the task calling it go on
+func (inst *IndependentInstance) completeFlow(containerInst *Instance) {
+
+	//flow completed or return was called explicitly, so lets complete the flow
+	flowBehavior := inst.flowModel.GetFlowBehavior()
+	flowBehavior.Done(containerInst)
+	containerInst.SetStatus(model.FlowStatusCompleted)
+
+	if containerInst != inst.Instance {
+		//not top level flow so we have to schedule next step
+		// Complete subflow trace
+		if containerInst.tracingCtx != nil {
+			_ = trace.GetTracer().FinishTrace(containerInst.tracingCtx, nil)
+		}
+
+		// spawned from task instance
+		host, ok := containerInst.host.(*TaskInst)
+
+		if ok {
+			host.SetOutputs(containerInst.returnData)
+			// Reset error if any
+			host.returnError = nil
+			//Sub flow done
+			containerInst.master.GetChanges().SubflowDone(containerInst)
+			inst.scheduleEval(host)
+		}
+
+		//if containerInst.isHandlingError {
+		//	//was the error handler, so directly under instance
+		//	host,ok := containerInst.host.(*EmbeddedInstance)
+		//	if ok {
+		//		host.SetStatus(model.FlowStatusCompleted)
+		//		host.returnData = containerInst.returnData
+		//		host.returnError = containerInst.returnError
+		//	}
+		//	//todo if not a task inst, what should we do?
+		//} else {
+		//	// spawned from task instance
+		//
+		//	//todo if not a task inst, what should we do?
+		//}
+
+		// flow has completed so remove it
+		if inst.subFlowLock != nil {
+			inst.subFlowLock.Lock()
+			defer inst.subFlowLock.Unlock()
+		}
+		delete(inst.subflows, containerInst.subflowId)
+	} else {
+		containerInst.master.GetChanges().FlowDone(inst)
+	}
+}
+
 func (inst *IndependentInstance) propagateSkip(taskEntries []*model.TaskEntry, activeInst *Instance) bool {
 
 	if len(taskEntries) == 0 {
@@ -662,6 +672,11 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		containerInst.taskInsts = make(map[string]*TaskInst)
 
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
+		if len(taskEntries) == 0 {
+			//nothing to do, so the error is handled
+			inst.completeFlow(containerInst)
+			return
+		}
 		err := inst.enterTasks(containerInst, taskEntries)
 		if err != nil {
 			//todo review how we should handle an error encountered here
-- 
2.43.0


From 0d56ef3f6866c5e155b40581deeaa4d3bfa44039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 07/64] fix: give one result for a failed flow with exception
 assertions

---
 action.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index bb95e26..fc6a600 100644
--- a/action.go
+++ b/action.go
@@ -425,8 +425,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			// The testcase will be passed or failed based on the assertions executed.
 			if hasFlowExceptionAssert {
 				handler.HandleResult(nil, nil)
+			} else {
+				handler.HandleResult(nil, inst.GetError())
 			}
-			handler.HandleResult(nil, inst.GetError())
 		}
 
 		logger.Debugf("Executing flow instance [%s] for event id [%s] - Status: %d", inst.ID(), trigger.GetHandlerEventIdFromContext(ctx), inst.Status())
-- 
2.43.0


From 91c7dcc1c0e58997d8d3dadaa58085d4bf29a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 08/64] fix: reject unknown flow operations

---
 action.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/action.go b/action.go
index fc6a600..10a4ca1 100644
--- a/action.go
+++ b/action.go
@@ -295,6 +295,8 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		} else {
 			return errors.New("unable to resume instance, initial state not provided")
 		}
+	default:
+		return fmt.Errorf("unsupported flow operation: %d", op)
 	}
 
 	if execOptions != nil {
-- 
2.43.0


From 8e96b6e364af7c09a1b09ffa39a09a6a53fd8c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 09/64] fix: do not keep return data built before the flow
 ended

---
 instance/instance.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/instance/instance.go b/instance/instance.go
index d1c855a..f45c7b5 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -167,27 +167,29 @@ func (inst *Instance) GetError() error {
 
 func (inst *Instance) GetReturnData() (map[string]interface{}, error) {
 
-	if inst.returnData == nil {
+	returnData := inst.returnData
 
-		//construct returnData from instance attributes
+	if returnData == nil {
+
+		//construct returnData from instance attributes, do not keep it since they can still change
 		md := inst.flowDef.Metadata()
 
 		if md != nil && md.Output != nil {
 
-			inst.returnData = make(map[string]interface{})
+			returnData = make(map[string]interface{})
 			for name := range md.Output {
 				piAttr, exists := inst.attrs[name]
 				if exists {
-					inst.returnData[name] = piAttr
+					returnData[name] = piAttr
 				}
 				if md.Output[name].Value() != nil {
-					inst.returnData[name] = md.Output[name].Value()
+					returnData[name] = md.Output[name].Value()
 				}
 			}
 		}
 	}
 
-	return inst.returnData, inst.returnError
+	return returnData, inst.returnError
 }
 
 /////////////////////////////////////////
-- 
2.43.0


From 93b2fa51315b00c8c21a8257df34685399c02dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 10/64] fix: give the outputs and returned error of a subflow
 to its task

---
 instance/ind_instance.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 588cdca..93a178f 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -557,9 +557,10 @@ func (inst *IndependentInstance) completeFlow(containerInst *Instance) {
 		host, ok := containerInst.host.(*TaskInst)
 
 		if ok {
-			host.SetOutputs(containerInst.returnData)
 			// Reset error if any
-			host.returnError = nil
+			var returnData map[string]interface{}
+			returnData, host.returnError = containerInst.GetReturnData()
+			host.SetOutputs(returnData)
 			//Sub flow done
 			containerInst.master.GetChanges().SubflowDone(containerInst)
 			inst.scheduleEval(host)
-- 
2.43.0


From f249b9233ee764c15cbe05cccceaf819894237bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 11/64] fix: evaluate a looping task again after it was waiting

---
 model/simple/dowhilebehavior.go  | 8 ++++++--
 model/simple/iteratorbehavior.go | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 11b40ab..bbc5e52 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -63,9 +63,13 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
-	ctx.SetStatus(model.TaskStatusDone)
 	defer dw.updateDoWhileIndex(ctx)
-	return dw.checkDoWhileCondition(ctx)
+	evalResult, err = dw.checkDoWhileCondition(ctx)
+	if evalResult == model.EvalRepeat {
+		// the task is not done yet, it has to be evaluated again
+		ctx.SetStatus(model.TaskStatusReady)
+	}
+	return evalResult, err
 }
 
 func (dw *DoWhileTaskBehavior) checkDoWhileCondition(ctx model.TaskContext) (evalResult model.EvalResult, err error) {
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 89a23a3..24df761 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -161,15 +161,17 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
-	ctx.SetStatus(model.TaskStatusDone)
 
 	itxAttr, _ := ctx.GetWorkingData("_iterator")
 	itx := itxAttr.(Iterator)
 
 	if itx.HasNext() {
+		// the task is not done yet, it has to be evaluated again
+		ctx.SetStatus(model.TaskStatusReady)
 		return model.EvalRepeat, nil
 	}
 
+	ctx.SetStatus(model.TaskStatusDone)
 	return model.EvalDone, nil
 }
 
-- 
2.43.0


From 82b968418cfa5e7ea682c0213d3067f5ed7d1221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 12/64] fix: treat an error in the settings of a task as an
 error of the task

---
 instance/ind_instance.go | 8 +++++++-
 instance/util.go         | 9 +++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 93a178f..8c2d5e4 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -743,10 +743,16 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 	}
 
 	for i, taskInst := range taskInsts {
+		if taskInst.isObsolete() {
+			// nothing left to do for it, e.g. because the flow failed with another one of the tasks
+			continue
+		}
 		if enterResults[i] == model.EREval {
 			err := applySettingsMapper(taskInst)
 			if err != nil {
-				return err
+				err = NewActivityEvalError(taskInst.task.Name(), "mapper", err.Error())
+				inst.handleTaskError(inst.flowModel.GetTaskBehavior(taskInst.task.TypeID()), taskInst, err)
+				continue
 			}
 			taskInst.scheduled = true
 			inst.scheduleEval(taskInst)
diff --git a/instance/util.go b/instance/util.go
index 1749626..c7bbd50 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -23,7 +23,13 @@ import (
 
 const EventIdAttr = "event.id"
 
-func applySettingsMapper(taskInst *TaskInst) error {
+func applySettingsMapper(taskInst *TaskInst) (err error) {
+
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("unhandled Error applying settings of task '%s' : %v", taskInst.task.ID(), r)
+		}
+	}()
 
 	// get the input mapper
 	settingsMapper := taskInst.task.SettingsMapper()
@@ -32,7 +38,6 @@ func applySettingsMapper(taskInst *TaskInst) error {
 
 		taskInst.logger.Debug("Applying SettingsMapper")
 
-		var err error
 		taskInst.settings, err = settingsMapper.Apply(taskInst.flowInst)
 
 		if err != nil {
-- 
2.43.0


From 4cb03f4cdbfbab3ff44d6a75ff1106853da70fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 13/64] fix: handle a panic of a task behavior as an error of
 its task

---
 instance/ind_instance.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 8c2d5e4..1921e80 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -433,11 +433,11 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 	var evalResult model.EvalResult
 
 	if taskInst.status == model.TaskStatusWaiting {
-		evalResult, err = behavior.PostEval(taskInst)
+		evalResult, err = evalTask(taskInst, behavior.PostEval)
 	} else if taskInst.status == model.TaskStatusSkipped || taskInst.status == model.TaskStatusDone {
 		return
 	} else {
-		evalResult, err = behavior.Eval(taskInst)
+		evalResult, err = evalTask(taskInst, behavior.Eval)
 	}
 
 	if err != nil {
@@ -475,6 +475,20 @@ func (inst *IndependentInstance) execTask(behavior model.TaskBehavior, taskInst
 	}
 }
 
+// evalTask evaluates the task, a panic while doing so is an error of the task
+func evalTask(taskInst *TaskInst, eval func(ctx model.TaskContext) (model.EvalResult, error)) (evalResult model.EvalResult, err error) {
+
+	defer func() {
+		if r := recover(); r != nil {
+			evalResult = model.EvalFail
+			err = NewActivityEvalError(taskInst.task.Name(), "unhandled", fmt.Sprintf("unhandled Error executing task '%s' : %v", taskInst.task.ID(), r))
+			taskInst.flowInst.logger.Error(err)
+		}
+	}()
+
+	return eval(taskInst)
+}
+
 // handleTaskDone handles the completion of a task in the Flow Instance
 func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior, taskInst *TaskInst) {
 
-- 
2.43.0


From 93c7d3a8f0c39523330d94dab5f3815405ac5450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 14/64] fix: evaluate a loop condition only after the runs of
 the loop

---
 definition/definition_ser.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/definition/definition_ser.go b/definition/definition_ser.go
index 010a65a..41ca3be 100644
--- a/definition/definition_ser.go
+++ b/definition/definition_ser.go
@@ -169,7 +169,7 @@ func createTask(def *Definition, rep *TaskRep, ef expression.Factory) (*Task, er
 		return nil, err
 	}
 
-	task.settingsMapper, err = mf.NewMapper(rep.Settings)
+	task.settingsMapper, err = mf.NewMapper(getMappedSettings(rep.Settings, task.loopCfg))
 	if err != nil {
 		return nil, err
 	}
@@ -603,6 +603,23 @@ func getLoopCfgDef(setting interface{}, ef expression.Factory) (*LoopConfig, err
 	return loopConf, nil
 }
 
+// getMappedSettings gets the settings that are evaluated when the task is entered, that is all but
+// the condition of a loop, which is evaluated after each run
+func getMappedSettings(settings map[string]interface{}, loopCfg *LoopConfig) map[string]interface{} {
+
+	if _, ok := settings["condition"]; !ok || loopCfg == nil || loopCfg.condition == nil {
+		return settings
+	}
+
+	mapped := make(map[string]interface{}, len(settings))
+	for name, value := range settings {
+		if name != "condition" {
+			mapped[name] = value
+		}
+	}
+	return mapped
+}
+
 type initCtxImpl struct {
 	settings      map[string]interface{}
 	mapperFactory mapper.Factory
-- 
2.43.0


From 7d54de82c79c588be7f5d17fc88cc21bf1e9c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 15/64] fix: apply the outputs of an accumulating asynchronous
 do-while run

---
 instance/taskinst.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 41fd333..8b99e1d 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -534,6 +534,12 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 			if err := ti.handleAccumulation(); err != nil {
 				return false, err
 			}
+
+			if cfg.ApplyOutputOnAccumulate() {
+				if err := ti.applyOutputMapper(); err != nil {
+					return done, err
+				}
+			}
 		} else if ti.task.ActivityConfig().OutputMapper() != nil {
 			appliedMapper, err := applyOutputMapper(ti)
 
-- 
2.43.0


From 9179307135ae7720ff208451c984d721c2981c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 16/64] fix: retry only retriable errors of asynchronous
 activities

---
 model/simple/taskbehavior.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/simple/taskbehavior.go b/model/simple/taskbehavior.go
index fd34031..805bb47 100755
--- a/model/simple/taskbehavior.go
+++ b/model/simple/taskbehavior.go
@@ -158,7 +158,7 @@ func (tb *TaskBehavior) PostEval(ctx model.TaskContext) (evalResult model.EvalRe
 
 	if err != nil {
 		//// check if error returned is retriable
-		if _, ok := err.(*activity.Error); ok && ctx.Task().RetryOnErrConfig() != nil {
+		if errVal, ok := err.(*activity.Error); ok && errVal.Retriable() && ctx.Task().RetryOnErrConfig() != nil {
 			retryData, rerr := getRetryData(ctx)
 			if rerr != nil {
 				return model.EvalFail, rerr
-- 
2.43.0


From 09cd8859e02c172c1aec780d6ee965404863caa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 17/64] fix: drop outputs of earlier runs of an activity

---
 instance/taskinst.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 8b99e1d..7e28660 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -344,6 +344,9 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 
 	eval := true
 
+	// outputs of an earlier run, e.g. of a loop or before a retry, aren't outputs of this one
+	ti.outputs = nil
+
 	// Start Trace
 	if trace.Enabled() {
 		ti.traceContext, _ = trace.GetTracer().StartTrace(ti.SpanConfig(), ti.flowInst.tracingCtx)
-- 
2.43.0


From 8cb4256b3eef151b9ddbd971f87d7d95d93cce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 18/64] fix: load flows that call remote flows without
 deadlocking

---
 definition/mapper.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/definition/mapper.go b/definition/mapper.go
index ba99311..8c624af 100644
--- a/definition/mapper.go
+++ b/definition/mapper.go
@@ -22,20 +22,24 @@ func GetMapperFactory() mapper.Factory {
 
 func NewDefaultActivityOutputMapper(task *Task) mapper.Mapper {
 	attrNS := "_A." + task.ID() + "."
-	return &defaultActivityOutputMapper{attrNS: attrNS, metadata: task.activityCfg.Activity.Metadata()}
+	return &defaultActivityOutputMapper{attrNS: attrNS, activity: task.activityCfg.Activity}
 }
 
 // BasicMapper is a simple object holding and executing mappings
 type defaultActivityOutputMapper struct {
 	attrNS   string
-	metadata *activity.Metadata
+	activity activity.Activity
 }
 
 func (m *defaultActivityOutputMapper) Apply(scope data.Scope) (map[string]interface{}, error) {
 
-	if m.metadata.IOMetadata != nil {
-		output := make(map[string]interface{}, len(m.metadata.Output))
-		for name := range m.metadata.Output {
+	// the metadata of a subflow activity is that of the flow it starts, which might not be loaded
+	// yet when this mapper is created, so it has to be looked up lazily
+	md := m.activity.Metadata()
+
+	if md != nil && md.IOMetadata != nil {
+		output := make(map[string]interface{}, len(md.Output))
+		for name := range md.Output {
 
 			value, ok := scope.GetValue(name)
 			if ok {
-- 
2.43.0


From 4d182239cb5365835146d3952c536c528ac7c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 19/64] fix: keep the outcome of a detached flow from its
 starter

---
 instance/util.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/instance/util.go b/instance/util.go
index c7bbd50..e0e575d 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -410,6 +410,9 @@ func StartDetachedSubFlow(ctx activity.Context, flowURI string, inputs map[strin
 	if eventId, ok := eventIdAttr.(string); ok && eventId != "" {
 		gCtx = trigger.NewContextWithEventId(gCtx, eventId)
 	}
+	if asyncAction, ok := flowAction.(action.AsyncAction); ok {
+		flowAction = &detachedAction{AsyncAction: asyncAction}
+	}
 	_, err = runner.NewDirect().RunAction(gCtx, flowAction, inputs)
 	if err != nil {
 		return err
@@ -417,6 +420,27 @@ func StartDetachedSubFlow(ctx activity.Context, flowURI string, inputs map[strin
 	return nil
 }
 
+// detachedAction runs an action whose results must not reach the one who started it
+type detachedAction struct {
+	action.AsyncAction
+}
+
+func (a *detachedAction) Run(ctx context.Context, inputs map[string]interface{}, handler action.ResultHandler) error {
+	return a.AsyncAction.Run(ctx, inputs, &detachedHandler{handler: handler})
+}
+
+type detachedHandler struct {
+	handler action.ResultHandler
+}
+
+func (h *detachedHandler) HandleResult(map[string]interface{}, error) {
+	// results of a detached execution are of no interest to its starter
+}
+
+func (h *detachedHandler) Done() {
+	h.handler.Done()
+}
+
 func IsConcurrentTaskExcutionEnabled() bool {
 	return os.Getenv("FLOGO_FLOW_CONCURRENT_TASK_EXECUTION") == "true"
 }
-- 
2.43.0


From d089fe087eaefc2474d900a0091da66d5e2d6dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 20/64] fix: leave inputs of a subflow that are not mapped to
 its defaults

---
 activity/subflow/activity.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/activity/subflow/activity.go b/activity/subflow/activity.go
index 5c16b2c..82047c2 100755
--- a/activity/subflow/activity.go
+++ b/activity/subflow/activity.go
@@ -93,8 +93,16 @@ func (a *SubFlowActivity) Eval(ctx activity.Context) (done bool, err error) {
 	md := a.Metadata()
 	if md.IOMetadata != nil {
 
+		mapped := &mappedInput{}
+		if err := ctx.GetInputObject(mapped); err != nil {
+			return false, err
+		}
+
 		for name := range md.Input {
-			input[name] = ctx.GetInput(name)
+			// inputs that are not mapped are left to the defaults of the subflow
+			if _, ok := mapped.values[name]; ok {
+				input[name] = ctx.GetInput(name)
+			}
 		}
 	}
 
@@ -107,3 +115,17 @@ func (a *SubFlowActivity) Eval(ctx activity.Context) (done bool, err error) {
 
 	return a.detachedInvocation, err
 }
+
+// mappedInput gives access to the inputs that are mapped
+type mappedInput struct {
+	values map[string]interface{}
+}
+
+func (i *mappedInput) ToMap() map[string]interface{} {
+	return i.values
+}
+
+func (i *mappedInput) FromMap(values map[string]interface{}) error {
+	i.values = values
+	return nil
+}
-- 
2.43.0


From c75fb675fd166f1a060cb57101d82ca89a9d3824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 21/64] fix: contain panics of flow output assertions

---
 action.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 10a4ca1..0fa2cf6 100644
--- a/action.go
+++ b/action.go
@@ -476,7 +476,7 @@ func (fa *FlowAction) applyAssertionInterceptor(inst *instance.IndependentInstan
 					interceptor.Assertions[id].Message = "Failed to validate expression"
 					continue
 				}
-				result, err := expr.Eval(inst.Instance)
+				result, err := evalAssertion(expr, inst)
 				if err != nil {
 					interceptor.Assertions[id].Result = flowsupport.Fail
 					interceptor.Assertions[id].Message = "Failed to evaluate expression"
@@ -507,3 +507,14 @@ func (fa *FlowAction) applyAssertionInterceptor(inst *instance.IndependentInstan
 	return hasFlowExceptionAssertion
 
 }
+
+// evalAssertion evaluates the expression of an assertion, a panic is an evaluation error
+func evalAssertion(expr expression.Expr, inst *instance.IndependentInstance) (result interface{}, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			logger.Warnf("Unhandled Error evaluating assertion: %v", r)
+			result, err = nil, fmt.Errorf("%v", r)
+		}
+	}()
+	return expr.Eval(inst.Instance)
+}
-- 
2.43.0


From 71f461c247f421edd21dbe3f1a7c4423f467d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 22/64] fix: restore serialised flow instances completely

---
 definition/definition.go |   4 ++
 instance/ind_instance.go |  66 ++++++++++++++++---
 instance/instance.go     |   3 +
 instance/instance_ser.go | 137 +++++++++++++++++++++++++++++++++------
 4 files changed, 183 insertions(+), 27 deletions(-)

diff --git a/definition/definition.go b/definition/definition.go
index 8f6808f..4b78766 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -515,3 +515,7 @@ func (eh *ErrorHandler) Tasks() []*Task {
 func (eh *ErrorHandler) GetTask(taskID string) *Task {
 	return eh.tasks[taskID]
 }
+
+func (eh *ErrorHandler) GetLink(linkID int) *Link {
+	return eh.links[linkID]
+}
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 1921e80..6f1d76d 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -916,7 +916,31 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 		return err
 	}
 	inst.master = inst
-	inst.init(inst.Instance)
+	err = inst.init(inst.Instance)
+	if err != nil {
+		return err
+	}
+
+	// subflows that are called have a higher id than the flow calling them
+	for subflowId := 1; subflowId <= inst.subflowCtr; subflowId++ {
+		subflow, ok := inst.subflows[subflowId]
+		if !ok {
+			continue
+		}
+		subflow.master = inst
+		subflow.logger = logger
+		subflow.flowDef, _, err = flowsupport.GetDefinition(subflow.flowURI)
+		if err != nil {
+			return err
+		}
+		if subflow.flowDef == nil {
+			return errors.New("unable to resolve subflow: " + subflow.flowURI)
+		}
+		err = inst.init(subflow)
+		if err != nil {
+			return err
+		}
+	}
 
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
 	inst.changeTracker.FlowCreated(inst)
@@ -957,18 +981,44 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 	return nil
 }
 
-func (inst *IndependentInstance) init(flowInst *Instance) {
+func (inst *IndependentInstance) init(flowInst *Instance) error {
+
+	errorHandler := flowInst.flowDef.GetErrorHandler()
+
+	for id, taskInst := range flowInst.taskInsts {
 
-	for _, taskInst := range flowInst.taskInsts {
-		initTaskInst(taskInst, flowInst, nil)
-		//v.flowInst = flowInst
-		//v.task = flowInst.flowDef.GetTask(v.taskID)
+		task := flowInst.flowDef.GetTask(id)
+		if task == nil && errorHandler != nil {
+			task = errorHandler.GetTask(id)
+		}
+		if task == nil {
+			return fmt.Errorf("unable to find task '%s' in flow: %s", id, flowInst.flowURI)
+		}
+
+		initTaskInst(taskInst, flowInst, task)
+		taskInst.id = taskInst.taskID
+
+		err := applySettingsMapper(taskInst)
+		if err != nil {
+			inst.logger.Warnf("unable to restore settings of task '%s': %v", id, err)
+		}
 	}
 
-	for _, linkInst := range flowInst.linkInsts {
+	for id, linkInst := range flowInst.linkInsts {
+
+		link := flowInst.flowDef.GetLink(id)
+		if link == nil && errorHandler != nil {
+			link = errorHandler.GetLink(id)
+		}
+		if link == nil {
+			return fmt.Errorf("unable to find link '%d' in flow: %s", id, flowInst.flowURI)
+		}
+
 		linkInst.flowInst = flowInst
-		linkInst.link = flowInst.flowDef.GetLink(linkInst.id)
+		linkInst.link = link
 	}
+
+	return nil
 }
 
 func (inst *IndependentInstance) SetTracingContext(tracingCtx trace.TracingContext) {
diff --git a/instance/instance.go b/instance/instance.go
index f45c7b5..d2479d6 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -25,6 +25,9 @@ type Instance struct {
 	flowDef *definition.Definition
 	flowURI string //needed for serialization
 
+	hostFlowId int    //needed for serialization
+	hostTaskId string //needed for serialization
+
 	taskInsts map[string]*TaskInst
 	linkInsts map[int]*LinkInst
 
diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 2f56db3..a5333c6 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -2,6 +2,10 @@ package instance
 
 import (
 	"encoding/json"
+	"errors"
+	"sort"
+
+	"github.com/project-flogo/core/activity"
 	"github.com/project-flogo/core/support"
 	"github.com/project-flogo/flow/model"
 )
@@ -18,6 +22,9 @@ type serIndependentInstance struct {
 	TaskInsts []*TaskInst            `json:"tasks"`
 	LinkInsts []*LinkInst            `json:"links"`
 	SubFlows  []*Instance            `json:"subFlows,omitempty"`
+
+	SubFlowCtr      int  `json:"subFlowCtr,omitempty"`
+	IsHandlingError bool `json:"isHandlingError,omitempty"`
 }
 
 // MarshalJSON overrides the default MarshalJSON for FlowInstance
@@ -58,6 +65,9 @@ func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 		TaskInsts: tis,
 		LinkInsts: lis,
 		SubFlows:  sfs,
+
+		SubFlowCtr:      inst.subflowCtr,
+		IsHandlingError: inst.isHandlingError,
 	})
 }
 
@@ -71,6 +81,7 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 
 	inst.Instance = &Instance{}
 	inst.id = ser.ID
+	inst.isHandlingError = ser.IsHandlingError
 	inst.status = ser.Status
 	inst.flowURI = ser.FlowURI
 
@@ -94,34 +105,62 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 		inst.linkInsts[linkInst.id] = linkInst
 	}
 
-	subFlowCtr := 0
+	inst.subflowCtr = ser.SubFlowCtr
 
 	if len(ser.SubFlows) > 0 {
 
 		inst.subflows = make(map[int]*Instance, len(ser.SubFlows))
 
+		// a subflow is created after the flow calling it, so it has the higher id
+		sort.Slice(ser.SubFlows, func(i, j int) bool { return ser.SubFlows[i].subflowId < ser.SubFlows[j].subflowId })
+
 		for _, value := range ser.SubFlows {
-			inst.subflows[value.subflowId] = value
 
-			if value.subflowId > subFlowCtr {
-				subFlowCtr = value.subflowId
+			if value.subflowId > inst.subflowCtr {
+				inst.subflowCtr = value.subflowId
+			}
+
+			hostFlow := inst.Instance
+			if value.hostFlowId > 0 {
+				hostFlow = inst.subflows[value.hostFlowId]
+			}
+
+			if hostFlow == nil || hostFlow.taskInsts[value.hostTaskId] == nil {
+				// nothing waits for the subflow anymore
+				continue
 			}
-		}
 
-		inst.subflowCtr = subFlowCtr
+			value.host = hostFlow.taskInsts[value.hostTaskId]
+			inst.subflows[value.subflowId] = value
+		}
 	}
 
 	inst.workItemQueue = support.NewSyncQueue()
 
-	for _, workItem := range ser.WorkQueue {
+	// the first item is the one to be handled next, so it has to be the last one that is pushed
+	for i := len(ser.WorkQueue) - 1; i >= 0; i-- {
+
+		workItem := ser.WorkQueue[i]
+
+		if workItem.ID > inst.wiCounter {
+			inst.wiCounter = workItem.ID
+		}
 
 		taskInsts := inst.taskInsts
 
 		if workItem.SubFlowID > 0 {
-			taskInsts = inst.subflows[workItem.SubFlowID].taskInsts
+			subflow := inst.subflows[workItem.SubFlowID]
+			if subflow == nil {
+				continue
+			}
+			taskInsts = subflow.taskInsts
 		}
 
 		workItem.taskInst = taskInsts[workItem.TaskID]
+		if workItem.taskInst == nil {
+			// the task is not to be executed anymore
+			continue
+		}
 		inst.workItemQueue.Push(workItem)
 	}
 
@@ -138,6 +177,10 @@ type serInstance struct {
 	Attrs     map[string]interface{} `json:"attrs"`
 	TaskInsts []*TaskInst            `json:"tasks"`
 	LinkInsts []*LinkInst            `json:"links"`
+
+	HostFlowId      int    `json:"hostFlowId,omitempty"`
+	HostTaskId      string `json:"hostTaskId,omitempty"`
+	IsHandlingError bool   `json:"isHandlingError,omitempty"`
 }
 
 // MarshalJSON overrides the default MarshalJSON for FlowInstance
@@ -161,6 +204,12 @@ func (inst *Instance) MarshalJSON() ([]byte, error) {
 		lis = append(lis, linkInst)
 	}
 
+	hostFlowId, hostTaskId := inst.hostFlowId, inst.hostTaskId
+
+	if host, ok := inst.host.(*TaskInst); ok && host.flowInst != nil {
+		hostFlowId, hostTaskId = host.flowInst.subflowId, host.taskID
+	}
+
 	return json.Marshal(&serInstance{
 		SubFlowId: inst.subflowId,
 		Status:    inst.status,
@@ -168,6 +217,10 @@ func (inst *Instance) MarshalJSON() ([]byte, error) {
 		FlowURI:   inst.flowURI,
 		TaskInsts: tis,
 		LinkInsts: lis,
+
+		HostFlowId:      hostFlowId,
+		HostTaskId:      hostTaskId,
+		IsHandlingError: inst.isHandlingError,
 	})
 }
 
@@ -180,6 +233,9 @@ func (inst *Instance) UnmarshalJSON(d []byte) error {
 	}
 
 	inst.subflowId = ser.SubFlowId
+	inst.hostFlowId = ser.HostFlowId
+	inst.hostTaskId = ser.HostTaskId
+	inst.isHandlingError = ser.IsHandlingError
 	inst.status = ser.Status
 	inst.flowURI = ser.FlowURI
 
@@ -207,24 +263,50 @@ func (inst *Instance) UnmarshalJSON(d []byte) error {
 ////////////////////////////////////////////////////////////////////////////////////////////////////////
 // TaskInst Serialization
 
+type serTaskInst struct {
+	TaskID  string                 `json:"id"`
+	Status  int                    `json:"status"`
+	Outputs map[string]interface{} `json:"outputs,omitempty"`
+	Error   *serError              `json:"error,omitempty"`
+}
+
+type serError struct {
+	Text      string      `json:"text"`
+	Type      string      `json:"type,omitempty"`
+	Activity  string      `json:"activity,omitempty"`
+	Code      string      `json:"code,omitempty"`
+	Data      interface{} `json:"data,omitempty"`
+	Retriable bool        `json:"retriable,omitempty"`
+}
+
+const serErrorActivity = "activity"
+
 // MarshalJSON overrides the default MarshalJSON for TaskInst
 func (ti *TaskInst) MarshalJSON() ([]byte, error) {
 
-	return json.Marshal(&struct {
-		TaskID string `json:"id"`
-		Status int    `json:"status"`
-	}{
-		TaskID: ti.task.ID(),
-		Status: int(ti.status),
-	})
+	ser := &serTaskInst{TaskID: ti.taskID, Status: int(ti.status)}
+
+	if ti.status == model.TaskStatusWaiting {
+		// what the subflow of the task gave
+		ser.Outputs = ti.outputs
+
+		switch e := ti.returnError.(type) {
+		case nil:
+		case *activity.Error:
+			ser.Error = &serError{Text: e.Error(), Type: serErrorActivity, Activity: e.ActivityName(), Code: e.Code(), Data: e.Data(), Retriable: e.Retriable()}
+		case *ActivityEvalError:
+			ser.Error = &serError{Text: e.Error(), Type: e.Type(), Activity: e.TaskName()}
+		default:
+			ser.Error = &serError{Text: e.Error()}
+		}
+	}
+
+	return json.Marshal(ser)
 }
 
 // UnmarshalJSON overrides the default UnmarshalJSON for TaskInst
 func (ti *TaskInst) UnmarshalJSON(d []byte) error {
-	ser := &struct {
-		TaskID string `json:"id"`
-		Status int    `json:"status"`
-	}{}
+	ser := &serTaskInst{}
 
 	if err := json.Unmarshal(d, ser); err != nil {
 		return err
@@ -232,6 +314,23 @@ func (ti *TaskInst) UnmarshalJSON(d []byte) error {
 
 	ti.status = model.TaskStatus(ser.Status)
 	ti.taskID = ser.TaskID
+	ti.outputs = ser.Outputs
+
+	if e := ser.Error; e != nil {
+		switch e.Type {
+		case "":
+			ti.returnError = errors.New(e.Text)
+		case serErrorActivity:
+			err := activity.NewError(e.Text, e.Code, e.Data)
+			if e.Retriable {
+				err = activity.NewRetriableError(e.Text, e.Code, e.Data)
+			}
+			err.SetActivityName(e.Activity)
+			ti.returnError = err
+		default:
+			ti.returnError = NewActivityEvalError(e.Activity, e.Type, e.Text)
+		}
+	}
 
 	return nil
 }
-- 
2.43.0


From a4882b5d096c332491b2b8966ed9bd0f933d4efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 23/64] fix: record all changes of an instance, complete its
 snapshot

---
 instance/ind_instance.go | 20 +++++++++++++++++++-
 instance/instance_chg.go | 24 ++++++++++++++++--------
 instance/recorder.go     |  9 +++++++++
 3 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 6f1d76d..986f8d5 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -226,10 +226,10 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 		for name, value := range md.Input {
 			if value != nil {
 				toStart.attrs[name] = value.Value()
-				inst.changeTracker.AttrChange(toStart.subflowId, name, value)
 			} else {
 				toStart.attrs[name] = nil
 			}
+			inst.changeTracker.AttrChange(toStart.subflowId, name, toStart.attrs[name])
 		}
 	} else {
 		if toStart.attrs == nil {
@@ -684,6 +684,9 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
 		//clear existing instances
+		for taskId := range containerInst.taskInsts {
+			inst.changeTracker.TaskRemoved(containerInst.subflowId, taskId)
+		}
 		containerInst.taskInsts = make(map[string]*TaskInst)
 
 		taskEntries := flowBehavior.StartErrorHandler(containerInst)
@@ -721,6 +724,13 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 				host.returnError = err
 				inst.scheduleEval(host)
 			}
+
+			// flow has failed so remove it
+			if inst.subFlowLock != nil {
+				inst.subFlowLock.Lock()
+				defer inst.subFlowLock.Unlock()
+			}
+			delete(inst.subflows, containerInst.subflowId)
 		}
 	}
 }
@@ -1052,6 +1062,13 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 
 	populateBaseSnapshot(inst.Instance, fs.SnapshotBase)
 
+	// the first item of the queue is the one to be handled next
+	for e := inst.workItemQueue.List.Front(); e != nil; e = e.Next() {
+		if workItem, ok := e.Value.(*WorkItem); ok {
+			fs.WorkQueue = append(fs.WorkQueue, &state.WorkItem{ID: workItem.ID, SubflowId: workItem.SubFlowID, TaskId: workItem.TaskID})
+		}
+	}
+
 	if len(inst.subflows) > 0 {
 		fs.Subflows = make([]*state.Subflow, 0, len(inst.subflows))
 		for id, subflow := range inst.subflows {
@@ -1061,6 +1078,7 @@ func (inst *IndependentInstance) Snapshot() *state.Snapshot {
 				TaskId:       subflow.host.(*TaskInst).taskID,
 			}
 			populateBaseSnapshot(subflow, sfs.SnapshotBase)
+			fs.Subflows = append(fs.Subflows, &sfs)
 		}
 	}
 	return fs
diff --git a/instance/instance_chg.go b/instance/instance_chg.go
index 6a43bf3..1966bcb 100644
--- a/instance/instance_chg.go
+++ b/instance/instance_chg.go
@@ -135,7 +135,7 @@ func (sct *SimpleChangeTracker) SetStatus(subflowId int, status model.FlowStatus
 	}
 	fc, exists := sct.currentStep.FlowChanges[subflowId]
 	if !exists {
-		fc = &change.Flow{}
+		fc = &change.Flow{SubflowId: subflowId}
 		sct.currentStep.FlowChanges[subflowId] = fc
 	}
 
@@ -149,7 +149,7 @@ func (sct *SimpleChangeTracker) AttrChange(subflowId int, name string, value int
 	}
 	fc, exists := sct.currentStep.FlowChanges[subflowId]
 	if !exists {
-		fc = &change.Flow{}
+		fc = &change.Flow{SubflowId: subflowId}
 		sct.currentStep.FlowChanges[subflowId] = fc
 	}
 
@@ -232,9 +232,10 @@ func (sct *SimpleChangeTracker) SubflowDone(subflow *Instance) {
 				fc.ReturnData = util.DeepCopyMap(returnData)
 			} else {
 				fc := &change.Flow{
-					NewFlow: false,
-					FlowURI: subflow.flowURI,
-					Status:  int(subflow.status),
+					NewFlow:   false,
+					SubflowId: subflow.subflowId,
+					FlowURI:   subflow.flowURI,
+					Status:    int(subflow.status),
 				}
 				returnData, _ := subflow.GetReturnData()
 				fc.ReturnData = util.DeepCopyMap(returnData)
@@ -251,6 +252,7 @@ func (sct *SimpleChangeTracker) WorkItemAdded(wi *WorkItem) {
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
 	qc.TaskId = wi.TaskID
+	qc.SubflowId = wi.SubFlowID
 }
 
 func (sct *SimpleChangeTracker) WorkItemRemoved(wi *WorkItem) {
@@ -260,6 +262,7 @@ func (sct *SimpleChangeTracker) WorkItemRemoved(wi *WorkItem) {
 	}
 	qc := getQueueChange(sct.currentStep, wi.ID)
 	qc.TaskId = wi.TaskID
+	qc.SubflowId = wi.SubFlowID
 	qc.ChgType = change.Delete
 }
 
@@ -269,6 +272,7 @@ func (sct *SimpleChangeTracker) TaskAdded(taskInst *TaskInst) {
 		sct.lock.Lock()
 	}
 	task := getTaskChange(sct.currentStep, taskInst.flowInst.subflowId, taskInst.taskID, taskInst.flowInst.flowURI)
+	task.ChgType = change.Add
 	task.Status = int(taskInst.status)
 }
 
@@ -301,6 +305,7 @@ func (sct *SimpleChangeTracker) LinkAdded(linkInst *LinkInst) {
 		sct.lock.Lock()
 	}
 	link := getLinkChange(sct.currentStep, linkInst.flowInst.subflowId, linkInst.id)
+	link.ChgType = change.Add
 	link.Status = int(linkInst.status)
 	if sct.mode == state.RecordingModeDebugger {
 		link.From = linkInst.link.FromTask().ID()
@@ -370,10 +375,13 @@ func getTaskChange(step *state.Step, subflowId int, taskId string, flowname stri
 
 	fc, exists := step.FlowChanges[subflowId]
 	if !exists {
-		fc = &change.Flow{TaskId: taskId, FlowURI: flowname}
+		fc = &change.Flow{SubflowId: subflowId, TaskId: taskId, FlowURI: flowname}
 		step.FlowChanges[subflowId] = fc
 	} else {
-		fc.TaskId = taskId
+		if !fc.NewFlow || subflowId == 0 {
+			// a new subflow is recorded with the task that started it
+			fc.TaskId = taskId
+		}
 		if fc.FlowURI == "" {
 			fc.FlowURI = flowname
 		}
@@ -396,7 +404,7 @@ func getLinkChange(step *state.Step, subflowId int, linkId int) *change.Link {
 
 	fc, exists := step.FlowChanges[subflowId]
 	if !exists {
-		fc = &change.Flow{}
+		fc = &change.Flow{SubflowId: subflowId}
 		step.FlowChanges[subflowId] = fc
 	}
 
diff --git a/instance/recorder.go b/instance/recorder.go
index 7e21f27..9410a47 100644
--- a/instance/recorder.go
+++ b/instance/recorder.go
@@ -20,6 +20,11 @@ func NewStateInstanceRecorder(recorder state.Recorder, mod state.RecordingMode,
 }
 
 func (inst *IndependentInstance) RecordState(strtTime time.Time) error {
+	if inst.instRecorder == nil || inst.instRecorder.externalRecorder == nil {
+		// nothing to record with
+		return nil
+	}
+
 	if state.RecordSnapshot(inst.instRecorder.mod) {
 		err := inst.instRecorder.externalRecorder.RecordSnapshot(inst.Snapshot())
 		if err != nil {
@@ -29,6 +34,10 @@ func (inst *IndependentInstance) RecordState(strtTime time.Time) error {
 
 	if state.RecordSteps(inst.instRecorder.mod) {
 		currStep := inst.CurrentStep(true)
+		if currStep == nil {
+			// changes are not tracked
+			return nil
+		}
 		currStep.StartTime = strtTime
 		currStep.EndTime = time.Now().UTC()
 		currStep.Rerun = inst.instRecorder.rerun
-- 
2.43.0


From caa5e89eee519a9f2b7c71073908c55ffbd95e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 24/64] fix: combine step records in the order in which they
 were made

---
 state/util.go | 151 ++++++++++++++++++++++++--------------------------
 1 file changed, 73 insertions(+), 78 deletions(-)

diff --git a/state/util.go b/state/util.go
index 6fcce94..193df6b 100644
--- a/state/util.go
+++ b/state/util.go
@@ -1,6 +1,11 @@
 package state
 
-import "github.com/project-flogo/flow/state/change"
+import (
+	"sort"
+
+	"github.com/project-flogo/flow/model"
+	"github.com/project-flogo/flow/state/change"
+)
 
 type FlowInfo struct {
 	Id                 string                 `json:"id"`
@@ -17,88 +22,87 @@ type FlowInfo struct {
 	OriginalInstanceId string                 `json:"originalInstanceId"`
 }
 
+// StepsToSnapshot gives the state of the flow after the specified steps, which are not modified
 func StepsToSnapshot(flowId string, steps []*Step) *Snapshot {
 
 	fs := &Snapshot{Id: flowId, SnapshotBase: &SnapshotBase{}}
 
 	subflows := make(map[int]*Subflow)
-	first := -1
-	queueDone := false
-
-	for i := len(steps) - 1; i >= 0; i-- {
-		step := steps[i]
-		if len(step.FlowChanges) > 0 {
-			for _, flowChange := range step.FlowChanges {
-
-				if flowChange.SubflowId > 0 {
-					subflow, exists := subflows[flowChange.SubflowId]
-					if !exists {
-						subflow = &Subflow{
-							SnapshotBase: &SnapshotBase{},
-							Id:           flowChange.SubflowId,
-							TaskId:       flowChange.TaskId,
-						}
-					}
-					UpdateFlow(subflow.SnapshotBase, flowChange)
-				} else {
-					// update main flow
-					UpdateFlow(fs.SnapshotBase, flowChange)
-				}
+
+	for _, step := range steps {
+
+		for id, flowChange := range step.FlowChanges {
+
+			if id == 0 {
+				id = flowChange.SubflowId
 			}
-		}
-		if len(step.QueueChanges) > 0 && !queueDone {
-			for id, queueChg := range step.QueueChanges {
-				queueDone = UpdateQueue(fs, id, queueChg, &first)
-				if queueDone {
-					break
+
+			if id > 0 {
+				subflow, exists := subflows[id]
+				if !exists {
+					subflow = &Subflow{
+						SnapshotBase: &SnapshotBase{},
+						Id:           id,
+						TaskId:       flowChange.TaskId,
+					}
+					subflows[id] = subflow
 				}
+				UpdateFlow(subflow.SnapshotBase, flowChange)
+			} else {
+				// update main flow
+				UpdateFlow(fs.SnapshotBase, flowChange)
 			}
 		}
 
+		for id, queueChg := range step.QueueChanges {
+			UpdateQueue(fs, id, queueChg)
+		}
 	}
 
-	for id, subflow := range subflows {
-		if id != 0 {
+	// the item added last is the one to be handled next
+	sort.Slice(fs.WorkQueue, func(i, j int) bool { return fs.WorkQueue[i].ID > fs.WorkQueue[j].ID })
+
+	for _, subflow := range subflows {
+		// a subflow that ended is not part of the state anymore
+		if subflow.Status < int(model.FlowStatusCompleted) {
 			fs.Subflows = append(fs.Subflows, subflow)
 		}
 	}
+	sort.Slice(fs.Subflows, func(i, j int) bool { return fs.Subflows[i].Id < fs.Subflows[j].Id })
 
 	return fs
 }
 
-func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue, first *int) bool {
+func UpdateQueue(fs *Snapshot, id int, queueChg *change.Queue) {
 
-	if *first == -1 && queueChg.ChgType == change.Delete {
-		*first = id
-	} else {
-		if id == *first {
-			return true
+	for i, item := range fs.WorkQueue {
+		if item.ID == id {
+			fs.WorkQueue = append(fs.WorkQueue[:i], fs.WorkQueue[i+1:]...)
+			break
 		}
 	}
 
-	if queueChg.ChgType == change.Add {
+	if queueChg.ChgType != change.Delete {
 		fs.WorkQueue = append(fs.WorkQueue, &WorkItem{
 			ID:        id,
 			SubflowId: queueChg.SubflowId,
 			TaskId:    queueChg.TaskId,
 		})
 	}
-	return false
 }
 
 func UpdateFlow(s *SnapshotBase, change *change.Flow) {
 
 	if len(change.Attrs) > 0 {
 		if s.Attrs == nil {
-			s.Attrs = change.Attrs
-		} else {
-			for name, value := range change.Attrs {
-				s.Attrs[name] = value
-			}
+			s.Attrs = make(map[string]interface{}, len(change.Attrs))
+		}
+		for name, value := range change.Attrs {
+			s.Attrs[name] = value
 		}
 	}
 
-	if s.Status == 0 {
+	if change.Status != 0 {
 		s.Status = change.Status
 	}
 
@@ -106,61 +110,52 @@ func UpdateFlow(s *SnapshotBase, change *change.Flow) {
 		s.FlowURI = change.FlowURI
 	}
 
-	if len(change.Tasks) > 0 {
-		for id, taskChg := range change.Tasks {
-			UpdateTasks(s, id, taskChg)
-		}
+	for id, taskChg := range change.Tasks {
+		UpdateTasks(s, id, taskChg)
 	}
-	if len(change.Links) > 0 {
-		for id, linkChg := range change.Links {
-			UpdateLinks(s, id, linkChg)
-		}
+	for id, linkChg := range change.Links {
+		UpdateLinks(s, id, linkChg)
 	}
 }
 
-func UpdateTasks(snapshot *SnapshotBase, taskId string, change *change.Task) {
-
-	var td *Task
+func UpdateTasks(snapshot *SnapshotBase, taskId string, taskChg *change.Task) {
 
-	if snapshot.Tasks != nil {
-		for _, task := range snapshot.Tasks {
-			if task.Id == taskId {
-				td = task
+	for i, task := range snapshot.Tasks {
+		if task.Id == taskId {
+			if taskChg.ChgType == change.Delete {
+				snapshot.Tasks = append(snapshot.Tasks[:i], snapshot.Tasks[i+1:]...)
+			} else {
+				task.Status = taskChg.Status
 			}
+			return
 		}
 	}
 
-	if td == nil {
+	if taskChg.ChgType != change.Delete {
 		snapshot.Tasks = append(snapshot.Tasks, &Task{
 			Id:     taskId,
-			Status: change.Status,
+			Status: taskChg.Status,
 		})
-	} else {
-		if td.Status == 0 {
-			td.Status = change.Status
-		}
 	}
 }
 
-func UpdateLinks(snapshot *SnapshotBase, linkId int, change *change.Link) {
-	var ld *Link
+func UpdateLinks(snapshot *SnapshotBase, linkId int, linkChg *change.Link) {
 
-	if snapshot.Links != nil {
-		for _, link := range snapshot.Links {
-			if link.Id == linkId {
-				ld = link
+	for i, link := range snapshot.Links {
+		if link.Id == linkId {
+			if linkChg.ChgType == change.Delete {
+				snapshot.Links = append(snapshot.Links[:i], snapshot.Links[i+1:]...)
+			} else {
+				link.Status = linkChg.Status
 			}
+			return
 		}
 	}
 
-	if ld == nil {
+	if linkChg.ChgType != change.Delete {
 		snapshot.Links = append(snapshot.Links, &Link{
 			Id:     linkId,
-			Status: change.Status,
+			Status: linkChg.Status,
 		})
-	} else {
-		if ld.Status == 0 {
-			ld.Status = change.Status
-		}
 	}
 }
-- 
2.43.0


From 6828d5376871b0f039a6b84b91021d9710784b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 25/64] fix: apply input interceptors to the task they name,
 report unusable values

---
 instance/taskinst.go |  8 +++++---
 instance/util.go     | 16 +++++++++++-----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 7e28660..331b6bd 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -342,8 +342,6 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 		}
 	}()
 
-	eval := true
-
 	// outputs of an earlier run, e.g. of a loop or before a retry, aren't outputs of this one
 	ti.outputs = nil
 
@@ -363,7 +361,11 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 		}
 	}
 
-	eval = applyInputInterceptor(ti)
+	eval, err := applyInputInterceptor(ti)
+	if err != nil {
+		evalErr = NewActivityEvalError(ti.task.Name(), "interceptor", err.Error())
+		return false, evalErr
+	}
 
 	if eval {
 
diff --git a/instance/util.go b/instance/util.go
index e0e575d..9974f5e 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -86,14 +86,20 @@ func applyInputMapper(taskInst *TaskInst) error {
 	return nil
 }
 
-func applyInputInterceptor(taskInst *TaskInst) bool {
+// applyInputInterceptor applies the interceptor of the task, if there is one, to its inputs. It returns false if the
+// task should not be evaluated.
+func applyInputInterceptor(taskInst *TaskInst) (bool, error) {
 
 	master := taskInst.flowInst.master
 
 	if master.interceptor != nil {
 
 		// check if this task as an interceptor
-		taskInterceptor := master.interceptor.GetTaskInterceptor(taskInst.task.ID())
+		taskInterceptor := master.interceptor.GetTaskInterceptor(taskInst.flowInst.Name() + "-" + taskInst.task.ID())
+		if taskInterceptor == nil {
+			// the flow name can be omitted
+			taskInterceptor = master.interceptor.GetTaskInterceptor(taskInst.task.ID())
+		}
 		if taskInterceptor != nil {
 
 			taskInst.logger.Debug("Applying Interceptor - Input")
@@ -114,7 +120,7 @@ func applyInputInterceptor(taskInst *TaskInst) bool {
 					if mdAttr, ok := mdInputs[name]; ok {
 						taskInst.inputs[name], err = coerce.ToType(value, mdAttr.Type())
 						if err != nil {
-							//handler err
+							return false, err
 						}
 					} else {
 						taskInst.inputs[name] = value
@@ -123,11 +129,11 @@ func applyInputInterceptor(taskInst *TaskInst) bool {
 			}
 
 			// check if we should not evaluate the task
-			return !taskInterceptor.Skip
+			return !taskInterceptor.Skip, nil
 		}
 	}
 
-	return true
+	return true, nil
 }
 
 func applyAssertionInterceptor(taskInst *TaskInst, assertType int) error {
-- 
2.43.0


From 570fb390bdff774606abd89635cac70495b122b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 26/64] fix: report interceptor assertions although something
 panics

---
 instance/taskinst.go | 17 ++++++++++++++++-
 instance/util.go     | 13 ++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 331b6bd..aa35864 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -393,7 +393,7 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 		// If output interceptor is there then the activity should be mocked and activity evaluation should be skipped.
 		// In the applyOutputInterceptor step the mock data will be applied to the activity
 		if !hasOutputInterceptor(ti) {
-			done, evalErr = actCfg.Activity.Eval(ctx)
+			done, evalErr = ti.evalActivity(ctx)
 
 			if evalErr != nil {
 				e, ok := evalErr.(*activity.Error)
@@ -473,6 +473,21 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 	return done, nil
 }
 
+// evalActivity evaluates the activity, a panic while doing so is an error of the activity
+func (ti *TaskInst) evalActivity(ctx activity.Context) (done bool, err error) {
+	act := ti.task.ActivityConfig().Activity
+
+	defer func() {
+		if r := recover(); r != nil {
+			ti.logger.Warnf("Unhandled Error executing activity '%s'[%s] : %v\n", ti.task.ID(), activity.GetRef(act), r)
+			done = false
+			err = NewActivityEvalError(ti.task.Name(), "unhandled", fmt.Sprintf("%v", r))
+		}
+	}()
+
+	return act.Eval(ctx)
+}
+
 func (ti *TaskInst) applyOutputMapper() error {
 	if ti.task.ActivityConfig().OutputMapper() != nil {
 		appliedMapper, err := applyOutputMapper(ti)
diff --git a/instance/util.go b/instance/util.go
index 9974f5e..40b15a7 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -194,7 +194,7 @@ func applyPrimitiveAssertion(taskInst *TaskInst, ef expression.Factory, assertio
 	if expr == nil {
 		return false, "Failed to validate expression", ast.ExprEvalData{}
 	}
-	result, err := expr.Eval(taskInst.flowInst)
+	result, err := evalAssertion(expr, taskInst)
 	if err != nil {
 		taskInst.logger.Error(err)
 		return false, "Failed to evaluate expression", ast.ExprEvalData{}
@@ -214,6 +214,17 @@ func applyPrimitiveAssertion(taskInst *TaskInst, ef expression.Factory, assertio
 		return res, "Comparison failure", resultData
 	}
 }
+
+// evalAssertion evaluates the expression of an assertion, a panic is an evaluation error
+func evalAssertion(expr expression.Expr, taskInst *TaskInst) (result interface{}, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			result, err = nil, fmt.Errorf("unhandled Error evaluating assertion: %v", r)
+		}
+	}()
+	return expr.Eval(taskInst.flowInst)
+}
+
 func hasOutputInterceptor(taskInst *TaskInst) bool {
 	master := taskInst.flowInst.master
 
-- 
2.43.0


From ccf8c73a92a8ba8ead2f660e5aa9e28119cb52dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 27/64] fix: use the mappings of a patch

---
 instance/taskinst.go | 11 ++++-------
 support/patch.go     | 29 +++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index aa35864..e30e0a7 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -350,15 +350,12 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 		ti.traceContext, _ = trace.GetTracer().StartTrace(ti.SpanConfig(), ti.flowInst.tracingCtx)
 	}
 
-	if actCfg.InputMapper() != nil {
+	err := applyInputMapper(ti)
 
-		err := applyInputMapper(ti)
-
-		if err != nil {
+	if err != nil {
 
-			evalErr = NewActivityEvalError(ti.task.Name(), "mapper", err.Error())
-			return false, evalErr
-		}
+		evalErr = NewActivityEvalError(ti.task.Name(), "mapper", err.Error())
+		return false, evalErr
 	}
 
 	eval, err := applyInputInterceptor(ti)
diff --git a/support/patch.go b/support/patch.go
index b547e48..afb4fc5 100644
--- a/support/patch.go
+++ b/support/patch.go
@@ -3,6 +3,7 @@ package support
 import (
 	"github.com/project-flogo/core/data"
 	"github.com/project-flogo/core/data/mapper"
+	"github.com/project-flogo/flow/definition"
 )
 
 // Patch contains a set of task patches for a Flow Patch, this
@@ -23,6 +24,7 @@ func (pp *Patch) Init() {
 
 		for _, patch := range pp.TaskPatches {
 			pp.taskPatchMap[patch.ID] = patch
+			patch.init()
 		}
 	}
 }
@@ -68,6 +70,33 @@ type TaskPatch struct {
 	outputMapper mapper.Mapper
 }
 
+// init creates the overriding mappers
+func (tp *TaskPatch) init() {
+	if len(tp.Input) > 0 {
+		tp.inputMapper = newMapper(tp.Input)
+	}
+	if len(tp.Output) > 0 {
+		tp.outputMapper = newMapper(tp.Output)
+	}
+}
+
+func newMapper(mappings map[string]interface{}) mapper.Mapper {
+	m, err := definition.GetMapperFactory().NewMapper(mappings)
+	if err != nil {
+		return &invalidMapper{err: err}
+	}
+	return m
+}
+
+// invalidMapper stands for mappings that cannot be used
+type invalidMapper struct {
+	err error
+}
+
+func (m *invalidMapper) Apply(scope data.Scope) (map[string]interface{}, error) {
+	return nil, m.err
+}
+
 // InputMapper returns the overriding InputMapper
 func (tp *TaskPatch) InputMapper() mapper.Mapper {
 	return tp.inputMapper
-- 
2.43.0


From dbb2c3e3a96610a6b6f1e36b9d7ab56dacc767e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 28/64] fix: reject duplicate task ids

---
 definition/definition_ser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/definition/definition_ser.go b/definition/definition_ser.go
index 41ca3be..71b1cba 100644
--- a/definition/definition_ser.go
+++ b/definition/definition_ser.go
@@ -81,6 +81,9 @@ func NewDefinition(rep *DefinitionRep) (def *Definition, err error) {
 			if err != nil {
 				return nil, fmt.Errorf("error creating task [%s] in flow [%s]: %s", taskRep.ID, rep.Name, err.Error())
 			}
+			if _, dup := def.tasks[task.id]; dup {
+				return nil, fmt.Errorf("error creating task [%s] in flow [%s]: duplicate task id", taskRep.ID, rep.Name)
+			}
 			def.tasks[task.id] = task
 		}
 	}
@@ -120,6 +123,9 @@ func NewDefinition(rep *DefinitionRep) (def *Definition, err error) {
 				if err != nil {
 					return nil, fmt.Errorf("error creating task [%s] in flow [%s]'s error handler:%s", taskRep.ID, rep.Name, err.Error())
 				}
+				if _, dup := errorHandler.tasks[task.id]; dup {
+					return nil, fmt.Errorf("error creating task [%s] in flow [%s]'s error handler: duplicate task id", taskRep.ID, rep.Name)
+				}
 				errorHandler.tasks[task.id] = task
 			}
 		}
-- 
2.43.0


From 008613c9ee682c815584602ecfce38392f0f8c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 29/64] fix: flow text that cannot be parsed is rejected
 instead of panicking

---
 support/manager.go  | 6 ++++--
 support/resource.go | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/support/manager.go b/support/manager.go
index 558495d..079d5d4 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -74,7 +74,9 @@ type BasicRemoteFlowProvider struct {
 	logger log.Logger
 }
 
-func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.DefinitionRep, error) {
+func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (rep *definition.DefinitionRep, err error) {
+
+	defer support.HandlePanic("GetFlow", &err)
 
 	logger := fp.logger
 
@@ -147,7 +149,7 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (*definition.Definiti
 	}
 
 	var flow *definition.DefinitionRep
-	err := json.Unmarshal(flowDefBytes, &flow)
+	err = json.Unmarshal(flowDefBytes, &flow)
 	if err != nil {
 		logger.Errorf(err.Error())
 		return nil, fmt.Errorf("error marshalling flow with uri '%s', %s", flowURI, err.Error())
diff --git a/support/resource.go b/support/resource.go
index 6cb1d98..6841574 100644
--- a/support/resource.go
+++ b/support/resource.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/project-flogo/core/app/resource"
+	"github.com/project-flogo/core/support"
 	"github.com/project-flogo/flow/definition"
 )
 
@@ -15,13 +16,16 @@ const (
 type FlowLoader struct {
 }
 
-func (*FlowLoader) LoadResource(config *resource.Config) (*resource.Resource, error) {
+func (*FlowLoader) LoadResource(config *resource.Config) (res *resource.Resource, err error) {
+
+	defer support.HandlePanic("LoadResource", &err)
+
 	var flowDefBytes []byte
 
 	flowDefBytes = config.Data
 
 	var defRep *definition.DefinitionRep
-	err := json.Unmarshal(flowDefBytes, &defRep)
+	err = json.Unmarshal(flowDefBytes, &defRep)
 	if err != nil {
 		return nil, fmt.Errorf("error loading flow resource with id '%s': %s", config.ID, err.Error())
 	}
-- 
2.43.0


From eb757f3d87897463cfa2acd3276539290b1e4e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 30/64] fix: reject an accumulate setting that is no truth
 value

---
 definition/definition_ser.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/definition/definition_ser.go b/definition/definition_ser.go
index 71b1cba..29ccf5d 100644
--- a/definition/definition_ser.go
+++ b/definition/definition_ser.go
@@ -522,7 +522,7 @@ func getLoopCfg(settings map[string]interface{}, taskType string, ef expression.
 	} else if setting, ok := settings["doWhile"]; ok {
 		loopConfig, err = getLoopCfgDef(setting, ef)
 		if accum, ok := settings["accumulate"]; loopConfig != nil && ok {
-			loopConfig.accumulate, _ = coerce.ToBool(accum)
+			loopConfig.accumulate, err = toAccumulate(accum)
 		}
 	} else {
 		loopConfig, err = getLoopCfgDef(settings, ef)
@@ -600,7 +600,10 @@ func getLoopCfgDef(setting interface{}, ef expression.Factory) (*LoopConfig, err
 
 	accumulateOutput, ok := settingMap["accumulate"]
 	if ok {
-		loopConf.accumulate, _ = coerce.ToBool(accumulateOutput)
+		loopConf.accumulate, err = toAccumulate(accumulateOutput)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	if loopConf.condition == nil && loopConf.iterateOn == nil {
@@ -609,6 +612,14 @@ func getLoopCfgDef(setting interface{}, ef expression.Factory) (*LoopConfig, err
 	return loopConf, nil
 }
 
+func toAccumulate(setting interface{}) (bool, error) {
+	accumulate, err := coerce.ToBool(setting)
+	if err != nil {
+		return false, fmt.Errorf("loop accumulate must be boolean")
+	}
+	return accumulate, nil
+}
+
 // getMappedSettings gets the settings that are evaluated when the task is entered, that is all but
 // the condition of a loop, which is evaluated after each run
 func getMappedSettings(settings map[string]interface{}, loopCfg *LoopConfig) map[string]interface{} {
-- 
2.43.0


From 606d7e8d9dd0ac0ebc20504869e62417772d5d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 31/64] fix: report an unknown recording mode

---
 action.go          | 2 +-
 ondemand/action.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index 0fa2cf6..1d828c0 100644
--- a/action.go
+++ b/action.go
@@ -94,7 +94,7 @@ func (f *ActionFactory) Initialize(ctx action.InitContext) error {
 			var err error
 			stateRecordingMode, err = state.ToRecordingMode(mode)
 			if err != nil {
-				return nil
+				return err
 			}
 		}
 
diff --git a/ondemand/action.go b/ondemand/action.go
index f44798a..55b755c 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -109,7 +109,7 @@ func (f *ActionFactory) Initialize(ctx action.InitContext) error {
 			var err error
 			stateRecordingMode, err = state.ToRecordingMode(mode)
 			if err != nil {
-				return nil
+				return err
 			}
 		}
 	}
-- 
2.43.0


From 851fab2f6a66d2dd36f6dd9fa144d93d5f6111f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 32/64] fix: error data describes the error an error link is
 followed for

---
 instance/taskinst.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index e30e0a7..2633b17 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -600,6 +600,9 @@ func (ti *TaskInst) appendErrorData(err error) {
 func (ti *TaskInst) setTaskError(err error) {
 	//For error branch handle.
 	errObj := ti.getErrorObject(err)
+	if !ti.flowInst.isHandlingError {
+		_ = ti.flowInst.SetValue("_E", errObj)
+	}
 	_ = ti.flowInst.SetValue("_E."+ti.Task().ID(), errObj)
 	//ti.flowInst.attrs["_E."+ti.Task().ID()] = errObj
 }
-- 
2.43.0


From d08e69db62c485539f6c1db04ef300208d474680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 33/64] fix: recognise gzip compressed flow files

---
 support/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/manager.go b/support/manager.go
index 079d5d4..d3b6006 100644
--- a/support/manager.go
+++ b/support/manager.go
@@ -93,7 +93,7 @@ func (fp *BasicRemoteFlowProvider) GetFlow(flowURI string) (rep *definition.Defi
 			logger.Errorf(readErr.Error())
 			return nil, readErr
 		}
-		if readBytes[0] == 0x1f && readBytes[2] == 0x8b {
+		if len(readBytes) > 1 && readBytes[0] == 0x1f && readBytes[1] == 0x8b {
 			flowDefBytes, err = unzip(readBytes)
 			if err != nil {
 				decompressErr := fmt.Errorf("error uncompressing flow with uri '%s', %s", flowURI, err.Error())
-- 
2.43.0


From fadbefb01b8bb36017e9bdb8465a6354e3d46c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 34/64] fix: flows of a restarted instance see their own ids

---
 instance/ind_instance.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 986f8d5..14aff0e 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -954,6 +954,16 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 
 	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
 	inst.changeTracker.FlowCreated(inst)
+
+	// the instance id might have changed, so update it in the flow contexts
+	_ = inst.SetValue(flowCtxPrefix+flowId, inst.ID())
+	for _, subflow := range inst.subflows {
+		_ = subflow.SetValue(flowCtxPrefix+flowId, subflow.ID())
+		if host, ok := subflow.host.(*TaskInst); ok {
+			_ = subflow.SetValue(flowCtxPrefix+parentFlowId, host.flowInst.ID())
+		}
+	}
+
 	// Set flow status to active
 	inst.SetStatus(model.FlowStatusActive)
 	if initStepId+1 > 0 {
-- 
2.43.0


From dfac2ccf861fd2d4094a813e44d9cd318aca580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 35/64] fix: post one event per change of a task's status

---
 instance/taskinst.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index 2633b17..ae841a0 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -173,9 +173,12 @@ func (ti *TaskInst) Status() model.TaskStatus {
 
 // SetStatus implements flow.TaskContext.SetStatus
 func (ti *TaskInst) SetStatus(status model.TaskStatus) {
+	changed := ti.status != status
 	ti.status = status
 	ti.flowInst.master.changeTracker.TaskUpdated(ti)
-	postTaskEvent(ti)
+	if changed {
+		postTaskEvent(ti)
+	}
 }
 
 // isObsolete checks if the task is not to be executed anymore, because its flow, or a flow calling it, has ended
-- 
2.43.0


From bd3ad1f55bc8d9a69bafaacbdde65183f6da22e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 36/64] fix: add the error to the event of a failed task

---
 instance/ind_instance.go         | 1 +
 model/simple/dowhilebehavior.go  | 2 --
 model/simple/iteratorbehavior.go | 2 --
 3 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 14aff0e..4389a46 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -641,6 +641,7 @@ func (inst *IndependentInstance) handleTaskError(taskBehavior model.TaskBehavior
 		_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
 	}
 	// Set task status to failed for subflow activity
+	taskInst.returnError = err
 	taskInst.SetStatus(model.TaskStatusFailed)
 
 	inst.addActivityToCoverage(taskInst, err)
diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index bbc5e52..0b91e47 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -38,7 +38,6 @@ func (dw *DoWhileTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Eva
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
 
@@ -60,7 +59,6 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
 	defer dw.updateDoWhileIndex(ctx)
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 24df761..59a5579 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -127,7 +127,6 @@ func (tb *IteratorTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Ev
 		if err != nil {
 			ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 			ctx.FlowLogger().Errorf("Error evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-			ctx.SetStatus(model.TaskStatusFailed)
 			return model.EvalFail, err
 		}
 
@@ -158,7 +157,6 @@ func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult mode
 	if err != nil {
 		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
 		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		ctx.SetStatus(model.TaskStatusFailed)
 		return model.EvalFail, err
 	}
 
-- 
2.43.0


From e270eb217d595418c332b3e29d121749137d44a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 37/64] fix: name the calling flow as parent in the events of a
 nested subflow

---
 instance/flowevents.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/instance/flowevents.go b/instance/flowevents.go
index 764886d..047ffb3 100644
--- a/instance/flowevents.go
+++ b/instance/flowevents.go
@@ -74,13 +74,10 @@ func postFlowEvent(inst *Instance) {
 		fe.time = time.Now()
 		fe.name = inst.Name()
 		fe.id = inst.ID()
-		if inst.master != nil && inst.master.id != inst.ID() {
-			fe.parentName = inst.master.Name()
-			fe.parentId = inst.master.ID()
-		}
-
 		taskInst, ok := inst.host.(*TaskInst)
 		if ok {
+			fe.parentName = taskInst.flowInst.Name()
+			fe.parentId = taskInst.flowInst.ID()
 			fe.hostTask = event.HostTask{TaskName: taskInst.Name(), TaskInstanceId: taskInst.InstanceId()}
 		}
 
-- 
2.43.0


From 2516a7d08e38c727cd5a62a15dd1b0c2d5c98abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 38/64] fix: add the returned data to the event of a completed
 flow

---
 instance/flowevents.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/instance/flowevents.go b/instance/flowevents.go
index 047ffb3..72b08cb 100644
--- a/instance/flowevents.go
+++ b/instance/flowevents.go
@@ -89,12 +89,14 @@ func postFlowEvent(inst *Instance) {
 		if fe.status != event.CREATED {
 			attrs := inst.attrs
 			outData, _ := inst.GetReturnData()
+			if fe.status == event.COMPLETED {
+				for name, value := range outData {
+					fe.output[name] = value
+				}
+			}
 			if attrs != nil && len(attrs) > 0 {
 				for name, attVal := range attrs {
 					if outData != nil && outData[name] != nil {
-						if fe.status == event.COMPLETED {
-							fe.output[name] = attVal
-						}
 						// Since same attribute map is used for input and output, filter output attributes
 						continue
 					}
-- 
2.43.0


From beb5f61d1e14666fcef03b59a3805f255c304096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 39/64] fix: name the calling flow as parent in the span of a
 nested subflow

---
 instance/ind_instance.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 4389a46..cee7471 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -1053,9 +1053,9 @@ func (inst *Instance) SpanConfig() trace.Config {
 	config.Tags = make(map[string]interface{})
 	config.Tags["flow_id"] = inst.ID()
 	config.Tags["flow_name"] = inst.Name()
-	if inst.master != nil && inst.master.id != inst.ID() {
-		config.Tags["parent_flow_id"] = inst.master.ID()
-		config.Tags["parent_flow_name"] = inst.master.Name()
+	if host, ok := inst.host.(*TaskInst); ok {
+		config.Tags["parent_flow_id"] = host.flowInst.ID()
+		config.Tags["parent_flow_name"] = host.flowInst.Name()
 	}
 	return config
 }
-- 
2.43.0


From 17df1ab9ce13309a92857345b81d17e84fc9be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 40/64] fix: finish the traces of tasks and subflows a flow
 ends without

---
 action.go                |  8 ++------
 instance/ind_instance.go | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/action.go b/action.go
index 1d828c0..a062b14 100644
--- a/action.go
+++ b/action.go
@@ -379,9 +379,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			err := inst.DoStepInLoop()
 			if err != nil && inst.Status() != model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
-				if inst.TracingContext() != nil {
-					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
-				}
+				inst.FinishTraces(err)
 				handler.HandleResult(nil, err)
 				return
 			}
@@ -397,9 +395,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			}
 			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
-				if inst.TracingContext() != nil {
-					_ = trace.GetTracer().FinishTrace(inst.TracingContext(), err)
-				}
+				inst.FinishTraces(err)
 				handler.HandleResult(nil, err)
 				return
 			}
diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index cee7471..432803c 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -559,6 +559,7 @@ func (inst *IndependentInstance) completeFlow(containerInst *Instance) {
 	flowBehavior := inst.flowModel.GetFlowBehavior()
 	flowBehavior.Done(containerInst)
 	containerInst.SetStatus(model.FlowStatusCompleted)
+	inst.finishOpenTraces(containerInst, nil)
 
 	if containerInst != inst.Instance {
 		//not top level flow so we have to schedule next step
@@ -685,6 +686,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		// todo: should we clear out the existing workitem queue for items from containerInst?
 		inst.logger.Infof("Running flow [%s] failed, now handle error in the error handler", inst.flowDef.Name())
 		//clear existing instances
+		inst.finishOpenTraces(containerInst, err)
 		for taskId := range containerInst.taskInsts {
 			inst.changeTracker.TaskRemoved(containerInst.subflowId, taskId)
 		}
@@ -707,6 +709,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 		inst.logger.Error(err)
 		containerInst.returnError = err
 		containerInst.SetStatus(model.FlowStatusFailed)
+		inst.finishOpenTraces(containerInst, err)
 
 		if containerInst != inst.Instance {
 
@@ -1046,6 +1049,38 @@ func (inst *IndependentInstance) SetTracingContext(tracingCtx trace.TracingConte
 	inst.tracingCtx = tracingCtx
 }
 
+// FinishTraces finishes the trace of the flow, and those of all its tasks and subflows that are still open
+func (inst *IndependentInstance) FinishTraces(err error) {
+	inst.finishOpenTraces(inst.Instance, err)
+	if inst.tracingCtx != nil {
+		_ = trace.GetTracer().FinishTrace(inst.tracingCtx, err)
+	}
+}
+
+// finishOpenTraces finishes the traces of the tasks of a flow that are waiting, and of the subflows they are waiting for,
+// because the flow does not go on with them
+func (inst *IndependentInstance) finishOpenTraces(flowInst *Instance, err error) {
+	if !trace.Enabled() {
+		return
+	}
+
+	for _, taskInst := range flowInst.taskInsts {
+		if taskInst.status != model.TaskStatusWaiting || taskInst.traceContext == nil {
+			continue
+		}
+		for _, subflow := range inst.subflows {
+			if subflow.host == taskInst {
+				inst.finishOpenTraces(subflow, err)
+				if subflow.tracingCtx != nil {
+					_ = trace.GetTracer().FinishTrace(subflow.tracingCtx, err)
+				}
+			}
+		}
+		_ = trace.GetTracer().FinishTrace(taskInst.traceContext, err)
+		taskInst.traceContext = nil
+	}
+}
+
 func (inst *Instance) SpanConfig() trace.Config {
 	config := trace.Config{}
 	config.Operation = inst.Name()
-- 
2.43.0


From c2d18acf130b9abf9d8203ef74b1e682c61c7c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 41/64] fix: an interceptor without coverage does not fail the
 flow, absent interceptors and patches are ignored

---
 support/interceptor.go | 13 +++++++++++++
 support/patch.go       |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/support/interceptor.go b/support/interceptor.go
index c8dddb6..b6ee337 100644
--- a/support/interceptor.go
+++ b/support/interceptor.go
@@ -44,6 +44,9 @@ func (pi *Interceptor) Init() {
 		pi.taskInterceptorMap = make(map[string]*TaskInterceptor, numAttrs)
 
 		for _, interceptor := range pi.TaskInterceptors {
+			if interceptor == nil {
+				continue
+			}
 			pi.taskInterceptorMap[interceptor.ID] = interceptor
 		}
 	}
@@ -54,15 +57,25 @@ func (pi *Interceptor) GetTaskInterceptor(taskID string) *TaskInterceptor {
 	return pi.taskInterceptorMap[taskID]
 }
 
+// ensureCoverage makes sure that there is a Coverage to add to, as it is optional
+func (pi *Interceptor) ensureCoverage() {
+	if pi.Coverage == nil {
+		pi.Coverage = &Coverage{}
+	}
+}
+
 func (pi *Interceptor) AddToActivityCoverage(coverage ActivityCoverage) {
+	pi.ensureCoverage()
 	pi.Coverage.ActivityCoverage = append(pi.Coverage.ActivityCoverage, &coverage)
 }
 
 func (pi *Interceptor) AddToSubFlowCoverage(coverage SubFlowCoverage) {
+	pi.ensureCoverage()
 	pi.Coverage.SubFlowCoverage = append(pi.Coverage.SubFlowCoverage, &coverage)
 }
 
 func (pi *Interceptor) AddToLinkCoverage(coverage TransitionCoverage) {
+	pi.ensureCoverage()
 	pi.Coverage.TransitionCoverage = append(pi.Coverage.TransitionCoverage, &coverage)
 }
 
diff --git a/support/patch.go b/support/patch.go
index afb4fc5..83622e3 100644
--- a/support/patch.go
+++ b/support/patch.go
@@ -23,6 +23,9 @@ func (pp *Patch) Init() {
 		pp.taskPatchMap = make(map[string]*TaskPatch, numAttrs)
 
 		for _, patch := range pp.TaskPatches {
+			if patch == nil {
+				continue
+			}
 			pp.taskPatchMap[patch.ID] = patch
 			patch.init()
 		}
-- 
2.43.0


From e0d55eb01d4ac55638e9f0351d9633e78d168468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 42/64] fix: report absent parts of a flow state instead of
 panicking

---
 instance/instance_ser.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index a5333c6..68bd21a 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -96,12 +96,18 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 	inst.taskInsts = make(map[string]*TaskInst, len(ser.TaskInsts))
 
 	for _, taskInst := range ser.TaskInsts {
+		if taskInst == nil {
+			return errors.New("invalid flow state: empty task")
+		}
 		inst.taskInsts[taskInst.taskID] = taskInst
 	}
 
 	inst.linkInsts = make(map[int]*LinkInst, len(ser.LinkInsts))
 
 	for _, linkInst := range ser.LinkInsts {
+		if linkInst == nil {
+			return errors.New("invalid flow state: empty link")
+		}
 		inst.linkInsts[linkInst.id] = linkInst
 	}
 
@@ -109,6 +115,12 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 
 	if len(ser.SubFlows) > 0 {
 
+		for _, value := range ser.SubFlows {
+			if value == nil {
+				return errors.New("invalid flow state: empty subflow")
+			}
+		}
+
 		inst.subflows = make(map[int]*Instance, len(ser.SubFlows))
 
 		// a subflow is created after the flow calling it, so it has the higher id
@@ -142,6 +154,10 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 
 		workItem := ser.WorkQueue[i]
 
+		if workItem == nil {
+			return errors.New("invalid flow state: empty work item")
+		}
+
 		if workItem.ID > inst.wiCounter {
 			inst.wiCounter = workItem.ID
 		}
@@ -248,12 +264,18 @@ func (inst *Instance) UnmarshalJSON(d []byte) error {
 	inst.taskInsts = make(map[string]*TaskInst, len(ser.TaskInsts))
 
 	for _, taskInst := range ser.TaskInsts {
+		if taskInst == nil {
+			return errors.New("invalid flow state: empty task")
+		}
 		inst.taskInsts[taskInst.taskID] = taskInst
 	}
 
 	inst.linkInsts = make(map[int]*LinkInst, len(ser.LinkInsts))
 
 	for _, linkInst := range ser.LinkInsts {
+		if linkInst == nil {
+			return errors.New("invalid flow state: empty link")
+		}
 		inst.linkInsts[linkInst.id] = linkInst
 	}
 
-- 
2.43.0


From 5f4beb22f54ab6c45d3f8d9e468b1aa3cc681a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 43/64] fix: flow tester: report a restart or resume request
 without state

---
 tester/request.go | 9 +++++++++
 tester/service.go | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/tester/request.go b/tester/request.go
index f2a0af1..c5fb117 100644
--- a/tester/request.go
+++ b/tester/request.go
@@ -2,6 +2,7 @@ package tester
 
 import (
 	"context"
+	"errors"
 
 	"github.com/project-flogo/core/action"
 	"github.com/project-flogo/core/engine/runner"
@@ -93,6 +94,10 @@ func (rp *RequestProcessor) RestartFlow(restartRequest *RestartRequest) (results
 
 	logger.Debugf("Tester restarting flow")
 
+	if restartRequest.InitialState == nil || restartRequest.InitialState.Instance == nil {
+		return nil, errors.New("unable to restart flow, initial state not provided")
+	}
+
 	//todo share action, for now add flowUri to settings
 	settings := map[string]interface{}{"flowURI":restartRequest.InitialState.FlowURI()}
 
@@ -130,6 +135,10 @@ func (rp *RequestProcessor) ResumeFlow(resumeRequest *ResumeRequest) (results ma
 
 	logger.Debugf("Tester resuming flow")
 
+	if resumeRequest.State == nil || resumeRequest.State.Instance == nil {
+		return nil, errors.New("unable to resume flow, state not provided")
+	}
+
 	//todo share action, for now add flowUri to settings
 	settings := map[string]interface{}{"flowURI":resumeRequest.State.FlowURI()}
 
diff --git a/tester/service.go b/tester/service.go
index 3b5b69a..e4dbc0c 100644
--- a/tester/service.go
+++ b/tester/service.go
@@ -206,7 +206,8 @@ func (ft *RestFlowTester) ResumeFlow(w http.ResponseWriter, r *http.Request, _ h
 
 	defer func() {
 		if r := recover(); r != nil {
-			logger.Error("Unable to resume flow, make sure definition registered")
+			logger.Errorf("Unable to resume flow, make sure definition registered: %v", r)
+			http.Error(w, "unable to resume flow", http.StatusInternalServerError)
 		}
 	}()
 
-- 
2.43.0


From 919fec6799c70139dec344a2085368bce38c2df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 44/64] fix: resume a deserialized flow, restart a flow with
 context logging

---
 action.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/action.go b/action.go
index a062b14..0450565 100644
--- a/action.go
+++ b/action.go
@@ -269,7 +269,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 			instLogger := logger
 			if log.CtxLoggingEnabled() {
-				instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowName", inst.Name()), log.FieldString("flowId", instanceID))
+				instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowName", flowName(inst)), log.FieldString("flowId", instanceID))
 			}
 			inst.SetInstanceRecorder(instance.NewStateInstanceRecorder(stateRecorder, stateRecordingMode, rerun))
 			//Engine should set init step id one step before current restart step
@@ -286,12 +286,18 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			inst = initialState
 			logger.Debug("Resuming Flow Instance: ", inst.ID())
 
-			//instLogger := logger
-			//
-			//if log.CtxLoggingEnabled() {
-			//	instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowName", inst.Name()), log.FieldString("flowId", instanceID))
-			//}
-
+			if inst.FlowDefinition() == nil {
+				// the instance was deserialized, so it has to be set up like a restarted one, but keeps its id
+				instLogger := logger
+				if log.CtxLoggingEnabled() {
+					instLogger = log.ChildLoggerWithFields(logger, log.FieldString("flowName", flowName(inst)), log.FieldString("flowId", inst.ID()))
+				}
+				inst.SetInstanceRecorder(instance.NewStateInstanceRecorder(stateRecorder, stateRecordingMode, rerun))
+				err := inst.Restart(instLogger, inst.ID(), initStepId-1)
+				if err != nil {
+					return err
+				}
+			}
 		} else {
 			return errors.New("unable to resume instance, initial state not provided")
 		}
@@ -514,3 +520,15 @@ func evalAssertion(expr expression.Expr, inst *instance.IndependentInstance) (re
 	}()
 	return expr.Eval(inst.Instance)
 }
+
+// flowName gives the name of the flow of an instance, which might be deserialized and not set up yet
+func flowName(inst *instance.IndependentInstance) string {
+	flowDef := inst.FlowDefinition()
+	if flowDef == nil {
+		flowDef, _, _ = flowsupport.GetDefinition(inst.FlowURI())
+	}
+	if flowDef == nil {
+		return ""
+	}
+	return flowDef.Name()
+}
-- 
2.43.0


From e7cf060a588d18070f6e33570935c09e3a3c0d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 45/64] fix: the id of a deserialized flow can be asked for

---
 instance/instance_ser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 68bd21a..8e1fc8a 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -79,7 +79,7 @@ func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 		return err
 	}
 
-	inst.Instance = &Instance{}
+	inst.Instance = &Instance{master: inst}
 	inst.id = ser.ID
 	inst.isHandlingError = ser.IsHandlingError
 	inst.status = ser.Status
-- 
2.43.0


From ce8e47db0aec1d57d033861788099ade3ab4e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 46/64] fix: collect the coverage of a task with the data of
 its own flow

---
 instance/ind_instance.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 432803c..6542fe8 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -806,8 +806,8 @@ func (inst *IndependentInstance) addActivityToCoverage(taskInst *TaskInst, err e
 	if inst.GetInterceptor().CollectIO {
 		outputs := taskInst.outputs
 		if outputs == nil {
-			if inst.returnData != nil {
-				outputs = inst.returnData
+			if taskInst.flowInst.returnData != nil {
+				outputs = taskInst.flowInst.returnData
 			}
 		}
 		coverage = flowsupport.ActivityCoverage{
@@ -818,13 +818,13 @@ func (inst *IndependentInstance) addActivityToCoverage(taskInst *TaskInst, err e
 			Outputs:      outputs,
 			Error:        errorObj,
 			FlowName:     taskInst.flowInst.Name(),
-			IsMainFlow:   !inst.isHandlingError,
+			IsMainFlow:   !taskInst.flowInst.isHandlingError,
 		}
 	} else {
 		coverage = flowsupport.ActivityCoverage{
 			ActivityName: taskInst.taskID,
 			FlowName:     taskInst.flowInst.Name(),
-			IsMainFlow:   !inst.isHandlingError,
+			IsMainFlow:   !taskInst.flowInst.isHandlingError,
 		}
 	}
 
-- 
2.43.0


From 9e261c8bd194e54b41450293cf5694ab0e60870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 47/64] fix: on-demand flows: report mappings that fail, run
 flows without mappings

---
 ondemand/action.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 55b755c..fdd58b2 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -285,9 +285,12 @@ func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{
 		return nil, err
 	}
 
-	inScope := data.NewSimpleScope(inputs, nil)
+	if m == nil {
+		// nothing to map
+		return make(map[string]interface{}), nil
+	}
 
-	out, _ := m.Apply(inScope)
+	inScope := data.NewSimpleScope(inputs, nil)
 
-	return out, nil
+	return m.Apply(inScope)
 }
-- 
2.43.0


From 7d7cb9744dfc503aad98ef59c3a411f4674ad751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 48/64] fix: on-demand flows: report an unsupported flow
 package

---
 ondemand/action.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index fdd58b2..ef7e285 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -179,7 +179,17 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 	if exists {
 
-		raw := fpAttr.(json.RawMessage)
+		var raw []byte
+		switch fp := fpAttr.(type) {
+		case json.RawMessage:
+			raw = fp
+		case []byte:
+			raw = fp
+		case string:
+			raw = []byte(fp)
+		default:
+			return fmt.Errorf("unsupported flow package: %T", fpAttr)
+		}
 		err := json.Unmarshal(raw, flowPackage)
 		if err != nil {
 			return err
-- 
2.43.0


From c6e619e82d94a3deb4f91d9eae5f2851a1d23462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 49/64] fix: on-demand flows: answer with the id of the flow

---
 ondemand/action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index ef7e285..1de69f5 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -238,7 +238,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 
 			results := make(map[string]interface{})
 
-			results["id"] = inst.ID
+			results["id"] = inst.ID()
 
 			handler.HandleResult(results, nil)
 		}
-- 
2.43.0


From 121fabce1697b099adbd16f2aa1a8c0c8a1efa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 50/64] fix: refuse tasks without an activity

---
 definition/definition_ser.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/definition/definition_ser.go b/definition/definition_ser.go
index 29ccf5d..ae0338f 100644
--- a/definition/definition_ser.go
+++ b/definition/definition_ser.go
@@ -180,21 +180,22 @@ func createTask(def *Definition, rep *TaskRep, ef expression.Factory) (*Task, er
 		return nil, err
 	}
 
-	if rep.ActivityCfgRep != nil {
-
-		actCfg, err := createActivityConfig(task, rep.ActivityCfgRep, ef)
+	if rep.ActivityCfgRep == nil {
+		return nil, fmt.Errorf("activity not specified for task: %s", task.ID())
+	}
 
-		if err != nil {
-			return nil, err
-		}
+	actCfg, err := createActivityConfig(task, rep.ActivityCfgRep, ef)
 
-		if (actCfg.Details != nil && (actCfg.Details.IsReturn || actCfg.Details.IsReply)) || def.explicitReply {
-			def.explicitReply = true
-		}
+	if err != nil {
+		return nil, err
+	}
 
-		task.activityCfg = actCfg
+	if (actCfg.Details != nil && (actCfg.Details.IsReturn || actCfg.Details.IsReply)) || def.explicitReply {
+		def.explicitReply = true
 	}
 
+	task.activityCfg = actCfg
+
 	return task, nil
 }
 
-- 
2.43.0


From 58e2090465c90bf155360e9f6bb6da739a3bfae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 51/64] fix: a flow may name the default model

---
 model/registry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/registry.go b/model/registry.go
index 9877296..0363335 100644
--- a/model/registry.go
+++ b/model/registry.go
@@ -68,6 +68,7 @@ func RegisterDefault(flowModel *FlowModel) {
 
 	if _, dup := models[id]; !dup {
 		models[id] = flowModel
+		util.RegisterModelValidator(id, flowModel)
 	}
 
 	defaultModel = flowModel
-- 
2.43.0


From e5f21f2b953593cf3f641a9a5365ead60c3b4241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 52/64] fix: run a subflow with the behaviour of its own model

---
 instance/ind_instance.go | 44 ++++++++++++++++++++++++----------------
 instance/instance.go     |  7 ++++---
 instance/util.go         |  5 ++++-
 3 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 6542fe8..9f1b059 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -30,7 +30,6 @@ type IndependentInstance struct {
 	trackingChanges bool
 	changeTracker   ChangeTracker
 
-	flowModel   *model.FlowModel
 	patch       *flowsupport.Patch
 	interceptor *flowsupport.Interceptor
 
@@ -96,7 +95,13 @@ func (inst *IndependentInstance) SetInstanceRecorder(stateRecorder *stateInstanc
 	inst.instRecorder = stateRecorder
 }
 
-func (inst *IndependentInstance) newEmbeddedInstance(taskInst *TaskInst, flowURI string, flow *definition.Definition) *Instance {
+func (inst *IndependentInstance) newEmbeddedInstance(taskInst *TaskInst, flowURI string, flow *definition.Definition) (*Instance, error) {
+
+	flowModel, err := getFlowModel(flow)
+	if err != nil {
+		return nil, err
+	}
+
 	if inst.subFlowLock != nil {
 		inst.subFlowLock.Lock()
 		defer inst.subFlowLock.Unlock()
@@ -110,6 +115,7 @@ func (inst *IndependentInstance) newEmbeddedInstance(taskInst *TaskInst, flowURI
 	embeddedInst.master = inst
 	embeddedInst.host = taskInst
 	embeddedInst.flowDef = flow
+	embeddedInst.flowModel = flowModel
 	embeddedInst.status = model.FlowStatusNotStarted
 	embeddedInst.taskInsts = make(map[string]*TaskInst)
 	embeddedInst.linkInsts = make(map[int]*LinkInst)
@@ -129,7 +135,7 @@ func (inst *IndependentInstance) newEmbeddedInstance(taskInst *TaskInst, flowURI
 	inst.changeTracker.SubflowCreated(embeddedInst)
 	//inst.ChangeTracker.SubFlowChange(taskInst.flowInst.subFlowId, CtAdd, embeddedInst.subFlowId, "")
 
-	return embeddedInst
+	return embeddedInst, nil
 }
 
 func (inst *IndependentInstance) UpdateStartTime() {
@@ -244,7 +250,7 @@ func (inst *IndependentInstance) startInstance(toStart *Instance, startAttrs map
 
 	toStart.SetStatus(model.FlowStatusActive)
 
-	flowBehavior := inst.flowModel.GetFlowBehavior()
+	flowBehavior := toStart.flowModel.GetFlowBehavior()
 	ok, taskEntries := flowBehavior.Start(toStart)
 
 	if ok {
@@ -321,9 +327,9 @@ func (inst *IndependentInstance) DoStep() bool {
 			workItem := item.(*WorkItem)
 
 			// get the corresponding behavior
-			behavior := inst.flowModel.GetDefaultTaskBehavior()
+			behavior := workItem.taskInst.flowInst.flowModel.GetDefaultTaskBehavior()
 			if typeID := workItem.taskInst.task.TypeID(); typeID != "" {
-				behavior = inst.flowModel.GetTaskBehavior(typeID)
+				behavior = workItem.taskInst.flowInst.flowModel.GetTaskBehavior(typeID)
 			}
 
 			// track the fact that the work item was removed from the queue
@@ -365,9 +371,9 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 					}()
 					log.RootLogger().Debugf("Task [%s] started on goroutine", wi.taskInst.task.ID())
 					// get the corresponding behavior
-					behavior := inst.flowModel.GetDefaultTaskBehavior()
+					behavior := wi.taskInst.flowInst.flowModel.GetDefaultTaskBehavior()
 					if typeID := wi.taskInst.task.TypeID(); typeID != "" {
-						behavior = inst.flowModel.GetTaskBehavior(typeID)
+						behavior = wi.taskInst.flowInst.flowModel.GetTaskBehavior(typeID)
 					}
 					// track the fact that the work item was removed from the queue
 					inst.changeTracker.WorkItemRemoved(wi)
@@ -377,9 +383,9 @@ func (inst *IndependentInstance) DoStepInLoop() error {
 				// Execute task on engine worker goroutine
 				// get the corresponding behavior
 				log.RootLogger().Debugf("Task [%s] started on worker goroutine", wi.taskInst.task.ID())
-				behavior := inst.flowModel.GetDefaultTaskBehavior()
+				behavior := wi.taskInst.flowInst.flowModel.GetDefaultTaskBehavior()
 				if typeID := wi.taskInst.task.TypeID(); typeID != "" {
-					behavior = inst.flowModel.GetTaskBehavior(typeID)
+					behavior = wi.taskInst.flowInst.flowModel.GetTaskBehavior(typeID)
 				}
 				// track the fact that the work item was removed from the queue
 				inst.changeTracker.WorkItemRemoved(wi)
@@ -530,7 +536,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 	}
 
 	if notifyFlow {
-		flowBehavior := inst.flowModel.GetFlowBehavior()
+		flowBehavior := containerInst.flowModel.GetFlowBehavior()
 		flowDone = flowBehavior.TaskDone(containerInst)
 	}
 
@@ -556,7 +562,7 @@ func (inst *IndependentInstance) handleTaskDone(taskBehavior model.TaskBehavior,
 func (inst *IndependentInstance) completeFlow(containerInst *Instance) {
 
 	//flow completed or return was called explicitly, so lets complete the flow
-	flowBehavior := inst.flowModel.GetFlowBehavior()
+	flowBehavior := containerInst.flowModel.GetFlowBehavior()
 	flowBehavior.Done(containerInst)
 	containerInst.SetStatus(model.FlowStatusCompleted)
 	inst.finishOpenTraces(containerInst, nil)
@@ -619,7 +625,7 @@ func (inst *IndependentInstance) propagateSkip(taskEntries []*model.TaskEntry, a
 		newTaskInst, _ := activeInst.FindOrCreateTaskInst(entry.Task)
 		newTaskInst.id = newTaskInst.taskID
 
-		taskToEnterBehavior := inst.flowModel.GetTaskBehavior(entry.Task.TypeID())
+		taskToEnterBehavior := activeInst.flowModel.GetTaskBehavior(entry.Task.TypeID())
 		enterResult := taskToEnterBehavior.Enter(newTaskInst)
 		if enterResult == model.ERSkip {
 			_, toSkipEntries, _ := taskToEnterBehavior.Skip(newTaskInst)
@@ -678,7 +684,7 @@ func (inst *IndependentInstance) HandleGlobalError(containerInst *Instance, err
 	handlingError := containerInst.isHandlingError
 	containerInst.isHandlingError = true
 
-	flowBehavior := inst.flowModel.GetFlowBehavior()
+	flowBehavior := containerInst.flowModel.GetFlowBehavior()
 
 	//if not currently handling error, check if it has an error handler
 	if !handlingError && containerInst.flowDef.GetErrorHandler() != nil {
@@ -759,7 +765,7 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 		}
 		entered[taskEntry.Task.ID()] = true
 
-		behavior := inst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
+		behavior := activeInst.flowModel.GetTaskBehavior(taskEntry.Task.TypeID())
 		taskInst, _ := activeInst.FindOrCreateTaskInst(taskEntry.Task)
 		if inst.concurrentExec && taskInst.scheduled {
 			//task is already scheduled by other goroutine. Lets skip this task
@@ -779,13 +785,13 @@ func (inst *IndependentInstance) enterTasks(activeInst *Instance, taskEntries []
 			err := applySettingsMapper(taskInst)
 			if err != nil {
 				err = NewActivityEvalError(taskInst.task.Name(), "mapper", err.Error())
-				inst.handleTaskError(inst.flowModel.GetTaskBehavior(taskInst.task.TypeID()), taskInst, err)
+				inst.handleTaskError(activeInst.flowModel.GetTaskBehavior(taskInst.task.TypeID()), taskInst, err)
 				continue
 			}
 			taskInst.scheduled = true
 			inst.scheduleEval(taskInst)
 		} else if enterResults[i] == model.ERSkip {
-			inst.handleTaskDone(inst.flowModel.GetTaskBehavior(taskInst.task.TypeID()), taskInst)
+			inst.handleTaskDone(activeInst.flowModel.GetTaskBehavior(taskInst.task.TypeID()), taskInst)
 		}
 	}
 
@@ -950,6 +956,10 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 		if subflow.flowDef == nil {
 			return errors.New("unable to resolve subflow: " + subflow.flowURI)
 		}
+		subflow.flowModel, err = getFlowModel(subflow.flowDef)
+		if err != nil {
+			return err
+		}
 		err = inst.init(subflow)
 		if err != nil {
 			return err
diff --git a/instance/instance.go b/instance/instance.go
index d2479d6..bb7790d 100644
--- a/instance/instance.go
+++ b/instance/instance.go
@@ -21,9 +21,10 @@ type Instance struct {
 
 	isHandlingError bool
 
-	status  model.FlowStatus
-	flowDef *definition.Definition
-	flowURI string //needed for serialization
+	status    model.FlowStatus
+	flowDef   *definition.Definition
+	flowModel *model.FlowModel
+	flowURI   string //needed for serialization
 
 	hostFlowId int    //needed for serialization
 	hostTaskId string //needed for serialization
diff --git a/instance/util.go b/instance/util.go
index 40b15a7..d463312 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -389,7 +389,10 @@ func StartSubFlow(ctx activity.Context, flowURI string, inputs map[string]interf
 	}
 
 	//todo make sure that there is only one subFlow per taskinst
-	flowInst := taskInst.flowInst.master.newEmbeddedInstance(taskInst, flowURI, def)
+	flowInst, err := taskInst.flowInst.master.newEmbeddedInstance(taskInst, flowURI, def)
+	if err != nil {
+		return err
+	}
 
 	ctx.Logger().Debugf("starting embedded subflow `%s`", flowInst.Name())
 
-- 
2.43.0


From 6b4e9fdea801085be69b7c4581f9e905cd0135b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 53/64] fix: step limit: ignore limits that are not positive,
 keep the error of a flow that fails at the limit

---
 action.go          | 2 +-
 ondemand/action.go | 2 +-
 util/util.go       | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/action.go b/action.go
index 0450565..36caa53 100644
--- a/action.go
+++ b/action.go
@@ -399,7 +399,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					inst.RecordState(taskStartTime)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
+			if stepCount >= maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
 				inst.FinishTraces(err)
 				handler.HandleResult(nil, err)
diff --git a/ondemand/action.go b/ondemand/action.go
index 1de69f5..8923ecd 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -260,7 +260,7 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 					//ep.GetStateRecorder().RecordStep(inst)
 				}
 			}
-			if stepCount == maxStepCount && inst.Status() != model.FlowStatusCompleted {
+			if stepCount >= maxStepCount && inst.Status() < model.FlowStatusCompleted {
 				handler.HandleResult(nil, fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
 			}
 		}
diff --git a/util/util.go b/util/util.go
index 0535c45..b7e8275 100644
--- a/util/util.go
+++ b/util/util.go
@@ -23,14 +23,14 @@ func DeepCopyMap(data map[string]interface{}) map[string]interface{} {
 	return copiedMap
 }
 
-// GetMaxStepCount returns the step limit
+// GetMaxStepCount returns the step limit, a limit has to be a positive number
 func GetMaxStepCount() int {
 	envStepCount, exists := os.LookupEnv(FlogoStepCountEnv)
 	if !exists {
 		return MaxStepCountDefault
 	}
 
-	if i, err := strconv.Atoi(envStepCount); err == nil {
+	if i, err := strconv.Atoi(envStepCount); err == nil && i > 0 {
 		return i
 	}
 
-- 
2.43.0


From d8078384cffac58585de3588f1db304d064c306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 54/64] fix: clean up the activities of an error handler, keep
 the settings of a task that cannot be reconfigured

---
 definition/definition.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/definition/definition.go b/definition/definition.go
index 4b78766..e6191b4 100644
--- a/definition/definition.go
+++ b/definition/definition.go
@@ -84,18 +84,25 @@ func (d *Definition) GetAttr(attrName string) (attr *data.Attribute, exists bool
 }
 
 func (d *Definition) Cleanup() error {
-	for id, task := range d.tasks {
+	cleanupTasks(d.tasks)
+	if d.errorHandler != nil {
+		cleanupTasks(d.errorHandler.tasks)
+	}
+
+	return nil
+}
+
+func cleanupTasks(tasks map[string]*Task) {
+	for id, task := range tasks {
 		if !activity.IsSingleton(task.activityCfg.Activity) {
 			if needsDisposal, ok := task.activityCfg.Activity.(support.NeedsCleanup); ok {
 				err := needsDisposal.Cleanup()
 				if err != nil {
-					log.RootLogger().Warnf("Error disposing activity '%s' : ", id, err)
+					log.RootLogger().Warnf("Error disposing activity '%s' : %v", id, err)
 				}
 			}
 		}
 	}
-
-	return nil
 }
 
 func (d *Definition) Reconfigure(config *resource.Config) error {
@@ -148,12 +155,17 @@ func (task *Task) reconfigureTaskSettings(taskRep *TaskRep, ef expression.Factor
 	var err error
 	if reconfigurable, ok := task.activityCfg.Activity.(activity.ReconfigurableActivity); ok {
 		mdSettings := task.activityCfg.Activity.Metadata().Settings
+		settings := make(map[string]interface{}, len(task.activityCfg.settings))
+		for name, value := range task.activityCfg.settings {
+			settings[name] = value
+		}
 		for name, value := range taskRep.ActivityCfgRep.Settings {
-			task.activityCfg.settings[name], err = metadata.ResolveSettingValue(name, value, mdSettings, ef)
+			settings[name], err = metadata.ResolveSettingValue(name, value, mdSettings, ef)
 			if err != nil {
 				return fmt.Errorf("unable to resolve setting [%s]'s value [%s]:%s", name, value, err.Error())
 			}
 		}
+		task.activityCfg.settings = settings
 		err = reconfigurable.Reconfigure(task.activityCfg.settings)
 		if err != nil {
 			return fmt.Errorf("failed to reconfigure activity [%s] due to error:%v", task.ID(), err)
-- 
2.43.0


From 6b17aca2cf75592fbad6339300fa29941af5eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 55/64] fix: validate the outputs of a task that waited

---
 instance/taskinst.go | 48 ++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/instance/taskinst.go b/instance/taskinst.go
index ae841a0..944b4b2 100644
--- a/instance/taskinst.go
+++ b/instance/taskinst.go
@@ -427,22 +427,12 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 
 	if done {
 
-		if schema.ValidationEnabled() {
-			if v, ok := actCfg.Activity.(schema.ValidationBypass); !(ok && v.BypassValidation()) {
-				//do validation
-				for name, value := range ti.outputs {
-					s := actCfg.GetOutputSchema(name)
-					if s != nil {
-						err := s.Validate(value)
-						if err != nil {
-							return false, err
-						}
-					}
-				}
-			}
+		err := ti.validateOutputs()
+		if err != nil {
+			return false, err
 		}
 
-		err := applyOutputInterceptor(ti)
+		err = applyOutputInterceptor(ti)
 		if err != nil {
 			return false, err
 		}
@@ -473,6 +463,29 @@ func (ti *TaskInst) EvalActivity() (done bool, evalErr error) {
 	return done, nil
 }
 
+// validateOutputs validates the outputs of the activity, if they have a schema
+func (ti *TaskInst) validateOutputs() error {
+	if !schema.ValidationEnabled() {
+		return nil
+	}
+
+	actCfg := ti.task.ActivityConfig()
+	if v, ok := actCfg.Activity.(schema.ValidationBypass); ok && v.BypassValidation() {
+		return nil
+	}
+
+	for name, value := range ti.outputs {
+		s := actCfg.GetOutputSchema(name)
+		if s != nil {
+			err := s.Validate(value)
+			if err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 // evalActivity evaluates the activity, a panic while doing so is an error of the activity
 func (ti *TaskInst) evalActivity(ctx activity.Context) (done bool, err error) {
 	act := ti.task.ActivityConfig().Activity
@@ -545,7 +558,12 @@ func (ti *TaskInst) PostEvalActivity() (done bool, evalErr error) {
 
 	if done {
 
-		err := applyOutputInterceptor(ti)
+		err := ti.validateOutputs()
+		if err != nil {
+			return false, err
+		}
+
+		err = applyOutputInterceptor(ti)
 		if err != nil {
 			return false, err
 		}
-- 
2.43.0


From 6d321e28313c617d161aba9cb90bf6f305269635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 56/64] fix: retry a looping task that fails when it goes on

---
 model/simple/dowhilebehavior.go  | 10 ++++------
 model/simple/iteratorbehavior.go | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/model/simple/dowhilebehavior.go b/model/simple/dowhilebehavior.go
index 0b91e47..45fddd8 100644
--- a/model/simple/dowhilebehavior.go
+++ b/model/simple/dowhilebehavior.go
@@ -54,12 +54,10 @@ func (dw *DoWhileTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model
 	ctx.FlowLogger().Debugf("PostEval doWhile Task '%s'", ctx.Task().ID())
 
 	initIndex(ctx)
-	_, err = ctx.PostEvalActivity()
-
-	if err != nil {
-		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
-		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		return model.EvalFail, err
+	// a run that fails with a retriable error is retried like that of any other task
+	evalResult, err = dw.TaskBehavior.PostEval(ctx)
+	if evalResult != model.EvalDone {
+		return evalResult, err
 	}
 	defer dw.updateDoWhileIndex(ctx)
 	evalResult, err = dw.checkDoWhileCondition(ctx)
diff --git a/model/simple/iteratorbehavior.go b/model/simple/iteratorbehavior.go
index 59a5579..5f1c344 100644
--- a/model/simple/iteratorbehavior.go
+++ b/model/simple/iteratorbehavior.go
@@ -152,12 +152,10 @@ func (tb *IteratorTaskBehavior) Eval(ctx model.TaskContext) (evalResult model.Ev
 // PostEval implements model.TaskBehavior.PostEval
 func (tb *IteratorTaskBehavior) PostEval(ctx model.TaskContext) (evalResult model.EvalResult, err error) {
 	ctx.FlowLogger().Debugf("PostEval Iterator Task '%s'", ctx.Task().ID())
-	_, err = ctx.PostEvalActivity()
-
-	if err != nil {
-		ref := activity.GetRef(ctx.Task().ActivityConfig().Activity)
-		ctx.FlowLogger().Errorf("Error post evaluating activity '%s'[%s] - %s", ctx.Task().ID(), ref, err.Error())
-		return model.EvalFail, err
+	// a run that fails with a retriable error is retried like that of any other task
+	evalResult, err = tb.TaskBehavior.PostEval(ctx)
+	if evalResult != model.EvalDone {
+		return evalResult, err
 	}
 
 	itxAttr, _ := ctx.GetWorkingData("_iterator")
-- 
2.43.0


From 2709d393e8d2de55d2eb83960cb1a1e4095cfa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 57/64] fix: number the steps of a run restarted from its start

---
 instance/ind_instance.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index 9f1b059..ffdce65 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -966,7 +966,12 @@ func (inst *IndependentInstance) Restart(logger log.Logger, id string, initStepI
 		}
 	}
 
-	inst.changeTracker = NewInstanceChangeTracker(inst.id, initStepId)
+	// without a step to restart from, the steps are numbered like those of a new instance
+	startStepId := initStepId
+	if startStepId < 0 {
+		startStepId = 0
+	}
+	inst.changeTracker = NewInstanceChangeTracker(inst.id, startStepId)
 	inst.changeTracker.FlowCreated(inst)
 
 	// the instance id might have changed, so update it in the flow contexts
-- 
2.43.0


From 32c3661f5fbb1c87925ca5fae4b8b4299f5e1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 58/64] fix: a subflow whose metadata cannot be found is an
 error of the task

---
 activity/subflow/activity.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/activity/subflow/activity.go b/activity/subflow/activity.go
index 82047c2..8a31f80 100755
--- a/activity/subflow/activity.go
+++ b/activity/subflow/activity.go
@@ -59,10 +59,16 @@ type SubFlowActivity struct {
 
 // Metadata returns the activity's metadata
 func (a *SubFlowActivity) Metadata() *activity.Metadata {
+	md, _ := a.loadMetadata()
+	return md
+}
+
+// loadMetadata returns the activity's metadata, which has the inputs and outputs of the subflow unless that cannot be found
+func (a *SubFlowActivity) loadMetadata() (*activity.Metadata, error) {
 
 	if a.activityMd == nil {
 		//singleton version of activity
-		return activityMd
+		return activityMd, nil
 	}
 
 	// have to lazy init for now, because resources are not loaded based on dependency
@@ -72,7 +78,7 @@ func (a *SubFlowActivity) Metadata() *activity.Metadata {
 		if a.mdUpdated == 0 {
 			flowIOMd, err := instance.GetFlowIOMetadata(a.flowURI)
 			if err != nil {
-				return a.activityMd
+				return a.activityMd, err
 			}
 			a.activityMd.IOMetadata = flowIOMd
 
@@ -80,7 +86,7 @@ func (a *SubFlowActivity) Metadata() *activity.Metadata {
 		}
 	}
 
-	return a.activityMd
+	return a.activityMd, nil
 }
 
 // Eval implements api.Activity.Eval
@@ -90,7 +96,10 @@ func (a *SubFlowActivity) Eval(ctx activity.Context) (done bool, err error) {
 
 	input := make(map[string]interface{})
 
-	md := a.Metadata()
+	md, err := a.loadMetadata()
+	if err != nil {
+		return false, err
+	}
 	if md.IOMetadata != nil {
 
 		mapped := &mappedInput{}
-- 
2.43.0


From e264778e12eef4ee0864cc8b1f144faaf81d6778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:25 +0000
Subject: [PATCH 59/64] fix: a detached subflow can be started without inputs

---
 instance/util.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/instance/util.go b/instance/util.go
index d463312..54479d9 100644
--- a/instance/util.go
+++ b/instance/util.go
@@ -420,7 +420,12 @@ func StartDetachedSubFlow(ctx activity.Context, flowURI string, inputs map[strin
 	ro := &RunOptions{}
 	ro.Op = OpStart
 	ro.DetachExecution = true
-	inputs["_run_options"] = ro
+	// the inputs belong to the caller and can be missing
+	runInputs := make(map[string]interface{}, len(inputs)+1)
+	for name, value := range inputs {
+		runInputs[name] = value
+	}
+	runInputs["_run_options"] = ro
 	eventIdAttr, ok := taskInst.flowInst.GetValue(EventIdAttr)
 	if !ok {
 		eventIdAttr, _ = taskInst.flowInst.master.Instance.GetValue(EventIdAttr)
@@ -433,7 +438,7 @@ func StartDetachedSubFlow(ctx activity.Context, flowURI string, inputs map[strin
 	if asyncAction, ok := flowAction.(action.AsyncAction); ok {
 		flowAction = &detachedAction{AsyncAction: asyncAction}
 	}
-	_, err = runner.NewDirect().RunAction(gCtx, flowAction, inputs)
+	_, err = runner.NewDirect().RunAction(gCtx, flowAction, runInputs)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 9c1a9d25aa3a471bb52517add3d34282578c737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:29 +0000
Subject: [PATCH 60/64] fix: report the end of a run stopped by the step limit
 to the recorder

---
 action.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/action.go b/action.go
index 36caa53..3a7d0ff 100644
--- a/action.go
+++ b/action.go
@@ -387,6 +387,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
 				inst.FinishTraces(err)
 				handler.HandleResult(nil, err)
+				if stateRecorder != nil {
+					stateRecorder.RecordDone(inst.GetFlowState(inputs))
+				}
 				return
 			}
 		} else {
@@ -403,6 +406,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
 				inst.FinishTraces(err)
 				handler.HandleResult(nil, err)
+				if stateRecorder != nil {
+					stateRecorder.RecordDone(inst.GetFlowState(inputs))
+				}
 				return
 			}
 		}
-- 
2.43.0


From c8fb90bd5ead0931b251c24e7aa624a88db3c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:52 +0000
Subject: [PATCH 61/64] fix: On-demand flows have a trace when tracing is
 enabled

---
 ondemand/action.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 8923ecd..3b452ef 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -17,6 +17,7 @@ import (
 	"github.com/project-flogo/core/support"
 	"github.com/project-flogo/core/support/log"
 	"github.com/project-flogo/core/support/service"
+	"github.com/project-flogo/core/support/trace"
 	"github.com/project-flogo/flow/definition"
 	"github.com/project-flogo/flow/instance"
 	"github.com/project-flogo/flow/model"
@@ -221,6 +222,14 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 		return err
 	}
 
+	if trace.Enabled() {
+		tc, err := trace.GetTracer().StartTrace(inst.SpanConfig(), trace.ExtractTracingContext(ctx))
+		if err != nil {
+			return err
+		}
+		inst.SetTracingContext(tc)
+	}
+
 	logger.Debugf("Executing Flow Instance: %s", inst.ID())
 
 	inst.Start(flowInputs)
@@ -247,6 +256,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 			logger.Info("Concurrent task execution feature is enabled. All independent activities will run concurrently.")
 			err := inst.DoStepInLoop()
 			if err != nil {
+				if inst.Status() < model.FlowStatusCompleted {
+					inst.FinishTraces(err)
+				}
 				handler.HandleResult(nil, err)
 			}
 		} else {
@@ -261,16 +273,24 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 				}
 			}
 			if stepCount >= maxStepCount && inst.Status() < model.FlowStatusCompleted {
-				handler.HandleResult(nil, fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv))
+				err := fmt.Errorf("flow instance [%s] failed due to max step count [%d] reached. Increase step count by setting [%s] to higher value", inst.ID(), maxStepCount, util.FlogoStepCountEnv)
+				inst.FinishTraces(err)
+				handler.HandleResult(nil, err)
 			}
 		}
 
 		if inst.Status() == model.FlowStatusCompleted {
 			returnData, err := inst.GetReturnData()
+			if inst.TracingContext() != nil {
+				_ = trace.GetTracer().FinishTrace(inst.TracingContext(), nil)
+			}
 
 			handler.HandleResult(returnData, err)
 
 		} else if inst.Status() == model.FlowStatusFailed {
+			if inst.TracingContext() != nil {
+				_ = trace.GetTracer().FinishTrace(inst.TracingContext(), inst.GetError())
+			}
 			handler.HandleResult(nil, inst.GetError())
 		}
 
-- 
2.43.0


From 3928304776eacd22127331afee2793439f7dcf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:53 +0000
Subject: [PATCH 62/64] fix: Restore tasks of an error handler that have the id
 of a task of the flow

---
 instance/ind_instance.go |  8 ++++++--
 instance/instance_ser.go | 19 ++++++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/instance/ind_instance.go b/instance/ind_instance.go
index ffdce65..4dd3a2f 100755
--- a/instance/ind_instance.go
+++ b/instance/ind_instance.go
@@ -1026,10 +1026,14 @@ func (inst *IndependentInstance) init(flowInst *Instance) error {
 
 	for id, taskInst := range flowInst.taskInsts {
 
-		task := flowInst.flowDef.GetTask(id)
-		if task == nil && errorHandler != nil {
+		// a flow that is handling an error executes the tasks of its error handler only
+		var task *definition.Task
+		if flowInst.isHandlingError && errorHandler != nil {
 			task = errorHandler.GetTask(id)
 		}
+		if task == nil {
+			task = flowInst.flowDef.GetTask(id)
+		}
 		if task == nil {
 			return fmt.Errorf("unable to find task '%s' in flow: %s", id, flowInst.flowURI)
 		}
diff --git a/instance/instance_ser.go b/instance/instance_ser.go
index 8e1fc8a..7c81bcb 100644
--- a/instance/instance_ser.go
+++ b/instance/instance_ser.go
@@ -30,10 +30,14 @@ type serIndependentInstance struct {
 // MarshalJSON overrides the default MarshalJSON for FlowInstance
 func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 
-	queue := make([]*WorkItem, inst.workItemQueue.List.Len())
+	queue := make([]*WorkItem, 0, inst.workItemQueue.List.Len())
 
-	for i, e := 0, inst.workItemQueue.List.Front(); e != nil; i, e = i+1, e.Next() {
-		queue[i], _ = e.Value.(*WorkItem)
+	for e := inst.workItemQueue.List.Front(); e != nil; e = e.Next() {
+		workItem, _ := e.Value.(*WorkItem)
+		if workItem == nil || isAbandoned(workItem.taskInst) {
+			continue
+		}
+		queue = append(queue, workItem)
 	}
 
 	attrs := make(map[string]interface{}, len(inst.attrs))
@@ -53,6 +57,9 @@ func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 
 	sfs := make([]*Instance, 0, len(inst.subflows))
 	for _, value := range inst.subflows {
+		if host, ok := value.host.(*TaskInst); ok && isAbandoned(host) {
+			continue
+		}
 		sfs = append(sfs, value)
 	}
 
@@ -71,6 +78,12 @@ func (inst *IndependentInstance) MarshalJSON() ([]byte, error) {
 	})
 }
 
+// isAbandoned checks if the task is not to be executed anymore, because its flow runs its error handler, which can have
+// a task with the same id, instead
+func isAbandoned(taskInst *TaskInst) bool {
+	return taskInst != nil && taskInst.flowInst != nil && taskInst.isObsolete()
+}
+
 // UnmarshalJSON overrides the default UnmarshalJSON for FlowInstance
 func (inst *IndependentInstance) UnmarshalJSON(d []byte) error {
 
-- 
2.43.0


From 10d9e87484cc622d27661fa8afff0886cb0d12b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:54 +0000
Subject: [PATCH 63/64] fix: Follow all otherwise links of a task

---
 model/simple/taskbehavior.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/model/simple/taskbehavior.go b/model/simple/taskbehavior.go
index 805bb47..7946a26 100755
--- a/model/simple/taskbehavior.go
+++ b/model/simple/taskbehavior.go
@@ -225,8 +225,8 @@ func (tb *TaskBehavior) Done(ctx model.TaskContext) (notifyFlow bool, taskEntrie
 	if numLinks > 0 {
 		taskEntries = make([]*model.TaskEntry, 0, numLinks)
 		var exprLinkFollowed, hasExprLink bool
-		var exprOtherwiseLinkInst model.LinkInstance
-		var exprOtherwiseTaskEntry *model.TaskEntry
+		var exprOtherwiseLinkInsts []model.LinkInstance
+		var exprOtherwiseTaskEntries []*model.TaskEntry
 
 		for _, linkInst := range linkInsts {
 
@@ -240,8 +240,8 @@ func (tb *TaskBehavior) Done(ctx model.TaskContext) (notifyFlow bool, taskEntrie
 			}
 
 			if linkInst.Link().Type() == definition.LtExprOtherwise {
-				exprOtherwiseLinkInst = linkInst
-				exprOtherwiseTaskEntry = taskEntry
+				exprOtherwiseLinkInsts = append(exprOtherwiseLinkInsts, linkInst)
+				exprOtherwiseTaskEntries = append(exprOtherwiseTaskEntries, taskEntry)
 				continue
 			}
 
@@ -282,13 +282,15 @@ func (tb *TaskBehavior) Done(ctx model.TaskContext) (notifyFlow bool, taskEntrie
 			}
 		}
 
-		//Otherwise branch while no expression link to follow
-		if exprOtherwiseLinkInst != nil && hasExprLink && !exprLinkFollowed {
-			exprOtherwiseLinkInst.SetStatus(model.LinkStatusTrue)
-			//TODO For now keep previous order, otherwise running first.
-			exprOtherwiseTaskEntry.EnterCode = getEnterCode(exprOtherwiseLinkInst)
-			if logger.DebugEnabled() {
-				logger.Debugf("Task '%s': Following Otherwise Link to task '%s'", ctx.Task().ID(), exprOtherwiseLinkInst.Link().ToTask().ID())
+		//Otherwise branches while no expression link to follow
+		if hasExprLink && !exprLinkFollowed {
+			for i, linkInst := range exprOtherwiseLinkInsts {
+				linkInst.SetStatus(model.LinkStatusTrue)
+				//TODO For now keep previous order, otherwise running first.
+				exprOtherwiseTaskEntries[i].EnterCode = getEnterCode(linkInst)
+				if logger.DebugEnabled() {
+					logger.Debugf("Task '%s': Following Otherwise Link to task '%s'", ctx.Task().ID(), linkInst.Link().ToTask().ID())
+				}
 			}
 		}
 
-- 
2.43.0


From fc564350434283f67d5cad4631d297a1cf0fa9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:37 +0000
Subject: [PATCH 64/64] fix: Refuse an on-demand request whose mapping panics

---
 ondemand/action.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ondemand/action.go b/ondemand/action.go
index 3b452ef..a281355 100644
--- a/ondemand/action.go
+++ b/ondemand/action.go
@@ -306,7 +306,9 @@ func (fa *FlowAction) Run(ctx context.Context, inputs map[string]interface{}, ha
 	return nil
 }
 
-func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{}) (map[string]interface{}, error) {
+func ApplyMappings(mappings map[string]interface{}, inputs map[string]interface{}) (values map[string]interface{}, err error) {
+
+	defer support.HandlePanic("ApplyMappings", &err)
 
 	mapperFactory := mapper.NewFactory(resolve.GetBasicResolver())
 
-- 
2.43.0

