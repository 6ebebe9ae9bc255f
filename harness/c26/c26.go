// Package c26: which messages are logged, and how.
package c26

import (
	"github.com/Allenxuxu/gev/log"

	"vrt/verif"
	"vrt/vos"
)

type call struct {
	f      bool
	format string
	args   []interface{}
}

type logger struct{ calls []call }

func (l *logger) Log(v ...interface{}) { l.calls = append(l.calls, call{args: v}) }
func (l *logger) Logf(format string, v ...interface{}) {
	l.calls = append(l.calls, call{f: true, format: format, args: v})
}

// Levels: every threshold, every level, every entry point, any prefix.
func Levels() {
	l := &logger{}
	log.SetLogger(l)
	verif.Assert(log.GetLogger() == log.Logger(l), "GetLogger returns the configured logger")
	prefix := "[Gev]"
	switch verif.Choose("prefix", 4) {
	case 1:
		prefix = ""
		log.SetPrefix("")
	case 2:
		prefix = string(verif.Bytes("p", 3))
		log.SetPrefix(prefix)
	case 3:
		log.Name("srv")
		prefix = "[srv]"
	}
	threshold := log.Level(verif.Int("threshold", -1<<40, 1<<40))
	if verif.Choose("set", 2) == 1 {
		log.SetLevel(threshold)
	} else {
		threshold = log.LevelInfo
	}
	verif.Assert(log.GetLevel() == threshold, "GetLevel returns the configured level")

	a, b := string(verif.Bytes("arg", 2)), verif.Int("num", 0, 1<<40)
	format := string(verif.Bytes("format", 3))
	lvl := log.Level(verif.Int("level", -1<<40, 1<<40))
	isF, exits := false, false
	n := verif.Choose("args", 3)
	args := []interface{}{a, b}[:n]
	which := verif.Choose("entry", 12)
	check := func() {
		enabled := lvl <= threshold
		if !enabled {
			verif.Assert(len(l.calls) == 0, "a message above the level is not logged")
			verif.Reach("suppressed")
			return
		}
		verif.Assert(len(l.calls) == 1, "an enabled message is logged exactly once")
		if len(l.calls) != 1 {
			return
		}
		c := l.calls[0]
		verif.Assert(c.f == isF, "logged with or without a format, as called")
		got := c.args
		if isF {
			switch {
			case prefix == "":
				verif.Assert(c.format == format, "the format")
			case len(got) == n+1: // the prefix as an argument of its own
				verif.Assert(c.format == "%s "+format && got[0] == interface{}(prefix), "the prefix precedes the format")
				got = got[1:]
			default: // the prefix as literal text of the format
				w := ""
				for i := 0; i < len(prefix); i++ {
					if prefix[i] == '%' {
						w += "%"
					}
					w += prefix[i : i+1]
				}
				verif.Assert(c.format == w+" "+format, "the prefix, as text, precedes the format")
			}
		} else if prefix != "" {
			ok := len(got) == n+2
			verif.Assert(ok, "the prefix and the arguments are logged")
			if !ok {
				return
			}
			verif.Assert(got[0] == interface{}(prefix) && got[1] == interface{}(" "), "the prefix comes first")
			got = got[2:]
		}
		verif.Assert(len(got) == n, "the number of arguments")
		if len(got) == n {
			for i := range got {
				verif.Assert(got[i] == args[i], "the arguments are unchanged")
			}
		}
		verif.Reach("logged")
	}
	vos.OnExit = func(code int) {
		verif.Assert(exits, "only Fatal exits")
		verif.Assert(code == 1, "Fatal exits with status 1")
		check()
		verif.Reach("exited")
		verif.Exit()
	}
	switch which {
	case 0:
		log.WithLevel(lvl, args...)
	case 1:
		isF = true
		log.WithLevelf(lvl, format, args...)
	case 2:
		lvl = log.LevelDebug
		log.Debug(args...)
	case 3:
		lvl, isF = log.LevelDebug, true
		log.Debugf(format, args...)
	case 4:
		lvl = log.LevelInfo
		log.Info(args...)
	case 5:
		lvl, isF = log.LevelInfo, true
		log.Infof(format, args...)
	case 6:
		lvl = log.LevelError
		log.Error(args...)
	case 7:
		lvl, isF = log.LevelError, true
		log.Errorf(format, args...)
	case 8:
		lvl, exits = log.LevelFatal, true
		log.Fatal(args...)
		verif.Assert(false, "Fatal does not return")
	case 9:
		lvl, isF, exits = log.LevelFatal, true, true
		log.Fatalf(format, args...)
		verif.Assert(false, "Fatalf does not return")
	case 10: // unconditional
		lvl = threshold
		log.Log(args...)
	case 11:
		lvl, isF = threshold, true
		log.Logf(format, args...)
	}
	check()
}

// Order: the levels are ordered fatal < info < error < debug.
func Order() {
	ls := []log.Level{log.LevelFatal, log.LevelInfo, log.LevelError, log.LevelDebug}
	l := &logger{}
	log.SetLogger(l)
	t := verif.Choose("threshold", 4)
	log.SetLevel(ls[t])
	log.Info(1)
	verif.Assert(len(l.calls) == 1 == (t >= 1), "info")
	log.Error(1)
	verif.Assert(len(l.calls) == 2 == (t >= 2), "error")
	log.Debug(1)
	verif.Assert(len(l.calls) == 3 == (t >= 3), "debug")
	verif.Reach("ordered")
}

// Environment: GEV_LOG_LEVEL sets the level at the start.
func Environment() {
	names := []string{"", "debug", "info", "error", "fatal", "Debug", "none"}
	want := []log.Level{log.LevelInfo, log.LevelDebug, log.LevelInfo, log.LevelError, log.LevelFatal, log.LevelInfo, log.LevelInfo}
	k := verif.Choose("env", len(names))
	vos.Start("GEV_LOG_LEVEL", names[k])
	if k < 5 {
		verif.Assert(log.GetLevel() == want[k], "the level set by the environment")
	}
	l := &logger{}
	log.SetLogger(l)
	lvl := log.Level(verif.Int("level", 1, 4))
	log.WithLevel(lvl, 1)
	if k < 5 {
		verif.Assert((len(l.calls) == 1) == (lvl <= want[k]), "the level set by the environment counts")
	}
	verif.Reach("started")
}
