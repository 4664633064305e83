package main

import (
	"context"
	"fmt"
	"io"
	"sync"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

// idsJob dispatches many messages at the same time, and counts the messages and
// the IDs that they have.
func idsJob(seed uint64, idx int) job {
	s := &concScenario{ID: fmt.Sprintf("ids/%d/%d", seed, idx)}
	return job{s.ID, func(sink io.Writer) ([]ev, bool) {
		r := &concRun{rec: newRec(base), sc: s, free: true}
		r.max = 1 << 30
		const workers, each = 12, 150
		for i := range workers * each {
			r.ops = append(r.ops, &concOpState{n: i + 1, cfg: concOp{Op: "dispatch"}})
		}
		r.eng = engine.MustNew(configkit.FromApplication(concApp{r}))
		var m sync.Mutex
		n := 0
		seen := map[string]bool{}
		saw := func(id string) {
			m.Lock()
			defer m.Unlock()
			n++
			seen[id] = true
		}
		obs := fact.ObserverFunc(func(f fact.Fact) {
			switch x := f.(type) {
			case fact.DispatchCycleBegun:
				saw(x.Envelope.MessageID)
			case fact.EventRecordedByAggregate:
				saw(x.EventEnvelope.MessageID)
			case fact.EventRecordedByIntegration:
				saw(x.EventEnvelope.MessageID)
			case fact.CommandExecutedByProcess:
				saw(x.CommandEnvelope.MessageID)
			case fact.TimeoutScheduledByProcess:
				saw(x.TimeoutEnvelope.MessageID)
			}
		})
		var wg sync.WaitGroup
		begin := make(chan struct{})
		for w := range workers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				for i := range each {
					o := r.ops[w*each+i]
					_ = r.eng.Dispatch(context.WithValue(context.Background(), concKey{}, o),
						Cmd[x0]{Key: fmt.Sprintf("n%d.0", o.n), Body: fmt.Sprintf("i%d", o.n)}, engine.WithObserver(obs), engine.WithCurrentTime(base))
				}
			}()
		}
		close(begin)
		wg.Wait()
		r.close()
		return []ev{{"e": "ids", "n": n, "d": len(seen)}}, false
	}, s}
}
