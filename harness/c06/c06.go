// Package c06: tasks queued on an event loop.
package c06

import (
	"github.com/Allenxuxu/gev/eventloop"

	"vrt/verif"
)

type rec struct {
	ran   int
	who   int // producer
	order int // position in its producer's order
	loop  bool
}

type log struct {
	all  []*rec
	ran  []*rec
	next map[int]int
	run  *verif.Task
}

// queue queues a task for producer who; nested tells how many tasks it queues when it runs.
func (g *log) queue(l *eventloop.EventLoop, who, nested int) {
	r := &rec{who: who, order: g.next[who]}
	g.next[who]++
	g.all = append(g.all, r)
	l.QueueInLoop(func() {
		r.ran++
		verif.Assert(r.ran == 1, "a task runs once")
		verif.Assert(verif.Cur() == g.run, "a task runs on its loop")
		for _, q := range g.ran {
			if q.who == r.who {
				verif.Assert(q.order < r.order, "tasks of one goroutine run in the order queued")
			}
		}
		g.ran = append(g.ran, r)
		for i := 0; i < nested; i++ {
			g.queue(l, 100+who, 0)
		}
	})
}

func (g *log) check() {
	for _, r := range g.all {
		verif.Assert(r.ran == 1, "a queued task runs without a further event")
	}
	verif.Observe("ran", len(g.ran))
}

func start(size, early, nested int) (*eventloop.EventLoop, *log) {
	eventloop.DefaultTaskQueueSize = verif.Choose("queue", size)
	l, err := eventloop.New()
	if err != nil {
		verif.Assert(false, "a loop can be made")
		verif.Exit()
	}
	g := &log{next: map[int]int{}}
	for i := 0; i < early; i++ {
		g.queue(l, 9, nested)
	}
	return l, g
}

// Seq: any number of tasks queued before the loop runs, while it sleeps and from tasks.
func Seq() {
	l, g := start(3, verif.Choose("early", 3), verif.Choose("nested", 2))
	verif.Go(func() { g.run = verif.Cur(); l.Run() })
	verif.WaitIdle()
	g.check()
	rounds := verif.Tier(2, 3)
	for i := 0; i < rounds; i++ {
		n := verif.Choose("n", 4)
		inner := verif.Choose("inner", 3)
		for k := 0; k < n; k++ {
			g.queue(l, 1, inner)
		}
		verif.WaitIdle()
		g.check()
	}
	verif.Reach("all ran")
}

// Conc: two producers against the loop.
func Conc() {
	verif.Fine = true
	conc(1, 1, 2, 1, verif.Tier(1, 2))
}

// Coarse: more tasks and preemptions, at atomics, locks and system calls only.
func Coarse() {
	conc(verif.Tier(2, 3), verif.Tier(1, 2), 2, 1, 2)
}

func conc(na, nb, bound, size, more int) {
	l, g := start(size, verif.Choose("early", more), 0)
	nested := verif.Choose("inner", more)
	asleep := verif.Choose("asleep", 2) == 1
	verif.Explore(bound)
	if asleep {
		verif.StopExplore()
	}
	verif.Go(func() { g.run = verif.Cur(); l.Run() })
	if asleep {
		verif.WaitIdle()
		verif.Explore(bound)
	}
	a := verif.Go(func() {
		for i := 0; i < na; i++ {
			g.queue(l, 1, nested)
		}
	})
	b := verif.Go(func() {
		for i := 0; i < nb; i++ {
			g.queue(l, 2, 0)
		}
	})
	a.Wait()
	b.Wait()
	verif.WaitIdle()
	g.check()
	verif.Reach("all ran")
}

// Many: more tasks at once than the queues were made for, and as many queued by one of
// them.
func Many() {
	sizes := []int{1023, 1024, 1025, 2500, verif.Tier(66000, 270000)}
	n := sizes[verif.Choose("n", len(sizes))]
	eventloop.DefaultTaskQueueSize = 1 << 10 * verif.Choose("queue", 2)
	l, err := eventloop.New()
	if err != nil {
		verif.Assert(false, "a loop can be made")
		return
	}
	var run *verif.Task
	next := 0
	sleeping := verif.Choose("sleeping", 2) == 1
	if sleeping {
		verif.Go(func() { run = verif.Cur(); l.Run() })
		verif.WaitIdle()
	}
	inner := n / 2
	total := n
	for i := 0; i < n; i++ {
		i := i
		l.QueueInLoop(func() {
			verif.Assert(verif.Cur() == run, "a task runs on its loop")
			verif.Assert(next == i, "each task runs once, in the order queued")
			next++
			if i == inner {
				for k := 0; k < n; k++ {
					want := total
					total++
					l.QueueInLoop(func() {
						verif.Assert(next == want, "each task runs once, in the order queued")
						next++
					})
				}
			}
		})
	}
	if !sleeping {
		verif.Go(func() { run = verif.Cur(); l.Run() })
	}
	verif.WaitIdle()
	verif.Assert(total == 2*n && next == total, "every task queued runs without a further event")
	verif.Reach("all ran")
}
