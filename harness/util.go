package main

import (
	"fmt"

	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

// Outcome is how a client's call ended.
type Outcome struct {
	Done  bool
	Panic string // text of the panic that reached the caller
}

// Join runs every function as a client task of its own and waits for all.
// A panic that reaches a client is that client's answer.
func Join(fs ...func()) []Outcome {
	out := make([]Outcome, len(fs))
	var wg simrt.WaitGroup
	wg.Add(len(fs))
	for i, f := range fs {
		i, f := i, f
		simrt.GoNamed(fmt.Sprintf("client%d", i), func() {
			txt, p := TryS(f)
			if p {
				out[i].Panic = txt
			} else {
				out[i].Done = true
			}
			wg.Done()
		})
	}
	wg.Wait()
	return out
}

// stall lets a client sleep for a while now and then.
func stall(num, den int) {
	w := simrt.Cur()
	if w.C.F.Chance(num, den) {
		w.Fault("stalled-client")
		w.Sleep(int64(1+w.C.F.N(1000)) * 1000)
	}
}
