package verif

// A cooperative scheduler: the same code decides interleavings under the engine
// (where Choose is a symbolic choice) and natively (where it is replayed).

// Task is a goroutine of the program under test or of the harness.
type Task struct {
	ID    int
	Name  string
	co    int
	ready func() bool
	idle  bool
	done  bool
}

var (
	tasks    []*Task
	cur      *Task
	explore  bool
	delays   bool
	budget   int
	switches int
	// OnDeadlock is called when nothing can run; returning true retries.
	OnDeadlock func() bool
)

func setup() {
	if cur == nil {
		cur = &Task{Name: "main"}
		tasks = append(tasks, cur)
	}
}

// Explore turns on the exploration of schedules with at most n preemptions.
func Explore(n int) { setup(); explore, delays, budget = true, false, n }

// Delays turns on the exploration of schedules that deviate at most n times from the
// fixed one: a preemption is a deviation, and so is every task passed over when the
// running one blocks.
func Delays(n int) { setup(); explore, delays, budget = true, true, n }

// StopExplore returns to the fixed schedule.
func StopExplore() { explore = false }

// Cur is the running task.
func Cur() *Task { setup(); return cur }

// Go starts a task.
func Go(f func()) *Task { return GoNamed("", f) }

// GoNamed starts a task.
func GoNamed(name string, f func()) *Task {
	setup()
	t := &Task{ID: len(tasks), Name: name}
	t.co = coNew(func() {
		f()
		t.done = true
		for {
			reschedule()
		}
	})
	tasks = append(tasks, t)
	Yield()
	return t
}

// Done reports whether the task has finished.
func (t *Task) Done() bool { return t.done }

func switchTo(t *Task) {
	if t == cur {
		return
	}
	cur = t
	coSwitch(t.co)
}

func (t *Task) runnable() bool {
	if t.done || t.idle {
		return false
	}
	return t.ready == nil || t.ready()
}

// others lists the runnable tasks other than cur, in cyclic order after it.
func others() []*Task {
	var r []*Task
	n := len(tasks)
	for i := 1; i < n; i++ {
		t := tasks[(cur.ID+i)%n]
		if t.runnable() {
			r = append(r, t)
		}
	}
	return r
}

// Yield is a point at which the running task may be preempted.
func Yield() {
	if !explore || budget <= 0 || Initialising() {
		return
	}
	setup()
	o := others()
	if len(o) == 0 {
		return
	}
	k := Choose("preempt", len(o)+1)
	if k == 0 {
		return
	}
	budget--
	switchTo(o[k-1])
}

// Gosched gives way to the next runnable task in cyclic order.
func Gosched() {
	setup()
	o := others()
	if len(o) > 0 {
		switchTo(o[0])
	}
}

// Block waits until ready holds.
func Block(ready func() bool) {
	setup()
	for !ready() {
		cur.ready = ready
		reschedule()
		cur.ready = nil
	}
}

// reschedule picks another task; the current one cannot continue (unless it is the
// only candidate after a deadlock hook).
func reschedule() {
	for {
		o := others()
		if len(o) > 0 {
			k := 0
			if explore && !delays {
				k = Choose("switch", len(o))
			} else if explore && budget > 0 && len(o) > 1 {
				m := len(o)
				if m > budget+1 {
					m = budget + 1
				}
				k = Choose("switch", m)
				budget -= k
			}
			switchTo(o[k])
			return
		}
		if cur.runnable() {
			return
		}
		for _, t := range tasks {
			if t.idle && !t.done {
				t.idle = false
				switchTo(t)
				return
			}
		}
		if OnDeadlock == nil || !OnDeadlock() {
			Assert(false, "deadlock: nothing can run")
			Exit()
		}
	}
}

// WaitIdle lets every other task run until none can.
func WaitIdle() {
	setup()
	if len(others()) == 0 {
		return
	}
	cur.idle = true
	reschedule()
	cur.idle = false
}

// Wait blocks until the task has finished.
func (t *Task) Wait() { Block(func() bool { return t.done }) }
