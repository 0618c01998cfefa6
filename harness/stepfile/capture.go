package stepfile

import (
	"io"
	"os"
)

// Capture returns what f prints to the standard output.
func Capture(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = w
	out := make(chan []byte)
	go func() {
		b, _ := io.ReadAll(r)
		out <- b
	}()
	done := func() []byte {
		os.Stdout = old
		w.Close()
		b := <-out
		r.Close()
		return b
	}
	finished := false
	defer func() {
		if !finished { // f panicked
			done()
		}
	}()
	f()
	finished = true
	return string(done())
}
