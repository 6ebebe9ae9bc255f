package verif

// Native coroutines: one goroutine each, exactly one runs at a time.

type coro struct{ ch chan struct{} }

var coros []*coro
var coCur int

func coNew(f func()) int { // engine
	if coros == nil {
		coros = []*coro{{ch: make(chan struct{})}}
	}
	c := &coro{ch: make(chan struct{})}
	coros = append(coros, c)
	go func() {
		<-c.ch
		f()
		panic("coroutine returned")
	}()
	return len(coros) - 1
}

func coSwitch(id int) { // engine
	if id == coCur {
		return
	}
	me := coros[coCur]
	coCur = id
	coros[id].ch <- struct{}{}
	<-me.ch
}
