package simrt

// Package-level variables of the simulated program belong to a process: each
// process initialises its own when it starts, and the variables hold the values
// of the process whose task is running. The harness's own tasks form one more
// set (number 0).

type globalVar interface {
	swap(from, to int)
	reset()
}

type gvar[T any] struct {
	p    *T
	vals []T
}

func (g *gvar[T]) swap(from, to int) {
	for len(g.vals) <= from || len(g.vals) <= to {
		var z T
		g.vals = append(g.vals, z)
	}
	g.vals[from] = *g.p
	*g.p = g.vals[to]
}

func (g *gvar[T]) reset() { g.vals = nil }

var (
	globalVars  []globalVar
	globalInits []func()
	globalsOf   int // the set the variables hold now
)

// Global describes a package-level variable.
func Global[T any](p *T) globalVar { return &gvar[T]{p: p} }

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// RegPkg registers a package's variables and what initialises them; packages
// register in the order Go initialises them.
func RegPkg(init func(), vars ...globalVar) {
	globalVars = append(globalVars, vars...)
	globalInits = append(globalInits, init)
}

func resetGlobals() {
	for _, g := range globalVars {
		g.reset()
	}
	globalsOf = 0
}

func runInits() {
	for _, f := range globalInits {
		f()
	}
}

// useGlobals loads the variables of a task's process.
func useGlobals(t *Task) {
	id := 0
	if t != nil && t.proc != nil {
		id = t.proc.ID
	}
	if id == globalsOf {
		return
	}
	for _, g := range globalVars {
		g.swap(globalsOf, id)
	}
	globalsOf = id
}

// Package initialisers of the program also run once when the harness starts,
// before there is a world: they get one that never schedules.
func init() {
	W = NewWorld(0, Options{}, nil)
	W.cur = &Task{yleft: 1 << 30, Name: "init"}
	yleft = 1 << 30
}
