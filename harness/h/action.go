package h

import (
	"sync"

	"flowverif/vsym"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/support/service"
	flow "github.com/project-flogo/flow"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
)

// actCtx is what the engine hands to the action factory.
type actCtx struct {
	rm       *resource.Manager
	sm       *service.Manager
	settings map[string]interface{}
}

func (c *actCtx) ResourceManager() *resource.Manager      { return c.rm }
func (c *actCtx) ServiceManager() *service.Manager        { return c.sm }
func (c *actCtx) RuntimeSettings() map[string]interface{} { return c.settings }

var theFactory *flow.ActionFactory
var theResources *resource.Manager

// initAction initialises the flow action with its services and the flows it can run, each under
// the uri "res://flow:" and its name.
func initAction(settings map[string]interface{}, sm *service.Manager, defs ...*definition.Definition) {
	if sm == nil {
		sm = service.NewServiceManager()
	}
	theResources = resource.NewManager(nil)
	for _, d := range defs {
		theResources.SetResource("flow:"+d.Name(), resource.New("flow", d))
	}
	theFactory = &flow.ActionFactory{}
	if err := theFactory.Initialize(&actCtx{theResources, sm, settings}); err != nil {
		panic(err)
	}
}

func newAction(uri string) action.AsyncAction {
	a, err := theFactory.New(&action.Config{Settings: map[string]interface{}{"flowURI": uri}})
	if err != nil {
		panic(err)
	}
	return a.(action.AsyncAction)
}

// outcome collects what a caller of the flow action is told.
type outcome struct {
	mu      sync.Mutex
	results []map[string]interface{}
	errs    []error
	ranAt   []int // number of executions so far, per result
	done    int
	doneAt  int // number of results before completion
}

func (o *outcome) HandleResult(res map[string]interface{}, err error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	cp := map[string]interface{}(nil)
	if res != nil {
		cp = make(map[string]interface{})
		for k, v := range res {
			cp[k] = v
		}
	}
	o.results = append(o.results, cp)
	o.errs = append(o.errs, err)
	o.ranAt = append(o.ranAt, len(runLog))
}

func (o *outcome) Done() {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.done++
	o.doneAt = len(o.results)
}

// runFlow runs a flow through the flow action and waits for its end.
func runFlow(uri string, inputs map[string]interface{}) (*outcome, error) {
	return runAct(newAction(uri), inputs, nil)
}

func runAct(a action.AsyncAction, inputs map[string]interface{}, opts *instance.RunOptions) (*outcome, error) {
	o := &outcome{}
	if opts != nil {
		if inputs == nil {
			inputs = make(map[string]interface{})
		}
		inputs["_run_options"] = opts
	}
	err := a.Run(runContext(), inputs, o)
	if err == nil {
		o.wait(opts != nil && opts.DetachExecution)
	}
	return o, err
}

func (o *outcome) wait(detached bool) {
	for i := 0; i < 50; i++ {
		vsym.Yield()
		o.mu.Lock()
		d := o.done
		o.mu.Unlock()
		if d > 0 && (!detached || i > 1) {
			vsym.Yield()
			return
		}
	}
}
