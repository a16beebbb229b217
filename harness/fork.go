package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"sync"
)

// forked registers a driver whose histories each need a fresh process: the package's configuration is
// global state that nothing resets.
func forked(name string, mk func(r R, id string) trace) {
	drivers[name+"-one"] = func(r R, count int, s *sink) { s.put(mk(r, fmt.Sprintf("%s-%d", name, count))) }
	drivers[name] = func(r R, count int, s *sink) {
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		seeds := make([]int64, count)
		for k := range seeds {
			seeds[k] = r.Int63()
		}
		outs := make([][]byte, count)
		var wg sync.WaitGroup
		next := make(chan int)
		for p := 0; p < 8; p++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := range next {
					f := fmt.Sprintf("%s.%d", s.f.Name(), k)
					cmd := exec.Command(self, name+"-one", strconv.FormatInt(seeds[k], 10), strconv.Itoa(k), f)
					var eb bytes.Buffer
					cmd.Stderr = &eb
					if err := cmd.Run(); err != nil {
						os.Stderr.Write(eb.Bytes())
						if c, e := os.ReadFile(f + ".current"); e == nil {
							os.WriteFile(s.f.Name()+".current", c, 0o644)
						}
						code := 2
						var x *exec.ExitError
						if errors.As(err, &x) {
							code = x.ExitCode()
						}
						os.Exit(code)
					}
					outs[k], _ = os.ReadFile(f)
					os.Remove(f)
				}
			}()
		}
		for k := 0; k < count; k++ {
			next <- k
		}
		close(next)
		wg.Wait()
		for _, o := range outs {
			s.b.Write(o)
		}
	}
}
