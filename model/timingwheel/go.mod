module github.com/RussellLuo/timingwheel

go 1.21
