package verif

// Fine turns on scheduling points and race detection at accesses to shared fields, in
// harnesses whose source says so (see engine/fine.go).
var Fine bool

// Acc is an access to the variable P points to: 0 read, 1 write, 2 read and 3 write of
// the contents of the map it holds.
type Acc struct {
	P interface{}
	K int
}

type window struct {
	a Acc
	t *Task
}

var windows []window

func A(p interface{}, k int) Acc { return Acc{p, k} }

// Touch: the running task is about to make these accesses.
func Touch(as ...Acc) {
	if !Fine || !explore || budget <= 0 {
		if Fine && explore {
			check(as)
		}
		return
	}
	check(as)
	n := len(windows)
	_ = n
	for _, a := range as {
		windows = append(windows, window{a, cur})
	}
	Yield()
	k := 0
	for _, w := range windows {
		if w.t != cur {
			windows[k] = w
			k++
		}
	}
	windows = windows[:k]
}

func check(as []Acc) {
	for _, a := range as {
		for _, w := range windows {
			if w.t != cur && w.a.P == a.P && w.a.K/2 == a.K/2 && (w.a.K|a.K)&1 == 1 {
				Assert(false, "data race: concurrent access to shared state")
				Exit()
			}
		}
	}
}

// Steps makes every statement of the program a scheduling point, in harnesses whose
// source says so (see engine/fine.go).
var Steps bool

// Step is called before every statement.
func Step() {
	if Steps && explore && budget > 0 {
		Yield()
	}
}
