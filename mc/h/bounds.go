//go:build go1.22

package main

import "strings"

// The bounds of the scenarios: the number of deviations from the default
// schedule that are enumerated completely in the quick and in the thorough
// tier, and in the quick tier of the race-detecting build (-1: not run). Where
// a scenario isn't listed, what it was registered with counts.
var bounds = []struct {
	ids                   string
	quick, thorough, race int
}{
	{"c01-cs-2sends-perm0 c01-cs-2sends-perm1 c01-cp-2sends-perm0 c01-cp-2sends-perm1", 3, 4, 2},
	{"c01-cs-3sends-perm0 c01-cs-3sends-perm1 c01-cs-3sends-perm2 c01-cs-3sends-perm3 c01-cs-3sends-perm4 c01-cs-3sends-perm5", 2, 3, 1},
	{"conn-par-1 conn-par-3 conn-par-5 conn-par-6 conn-par-7 conn-par-8 conn-listeners", 2, 3, 1},
	{"conn-blink", 3, 4, 2},
	{"cp-cancel soap-cancel", 2, 3, 1},
	{"cp-cancel-par-0 cp-cancel-par-1 cp-cancel-par-2 cp-cancel-par-3 cp-cancel-par-4", 3, 4, 2},
	{"cp-loss-par-0 cp-loss-par-1 cp-loss-par-2 cp-loss-par-4 cp-loss-par-5 cp-loss-par-6", 3, 4, 2},
	{"cp-loss-par-3", 2, 3, 1},
	{"e2e-par-3", 1, 2, 1},
	{"msg-race-cs-0 msg-race-cp-0 msg-race-cs-2 msg-race-cp-2 msg-race-cs-3 msg-race-cp-3", 3, 4, 2},
	{"msg-race-cs-1 msg-race-cp-1", 2, 3, 1},
	{"replies-twice-cs replies-twice-cp", 3, 4, 2},
	{"msg-pipeline-sched-cs msg-pipeline-sched-cp", 2, 3, 1},
	{"hist-cs-4 hist-cp-4", -1, 0, -1},
	{"hist-cs-5 hist-cp-5 msg-pipeline-3-cs msg-pipeline-3-cp cp-reconnect-3", 0, -1, -1},
	{"hist-cs-6 hist-cp-6 msg-pipeline-4-cs msg-pipeline-4-cp cp-reconnect-4", -1, 0, -1},
	{"msg-pipeline-2-cs msg-pipeline-2-cp cp-reconnect-2", -1, -1, -1},
	{"hist-cs-sched hist-cp-sched", 1, 2, -1},
	{"slow-sched", 2, 2, -1},
	{"cp-close-codes-1", 2, 3, -1},
	{"same-objects same-objects-soap soap-action-pairs action-pairs-cs action-pairs-cp cp-close-codes listener-order soap-headers scale-big-soap", 0, 0, -1},
	{"soap-conc-1", 2, 3, 1},
	{"soap-conc-faults-1", 1, 2, -1},
	{"soap-conc-2", 1, 2, -1},
}

// Scenarios that are explored once more with a possible preemption before every
// statement of the code under test, with the bounds of the quick and of the
// thorough tier.
var fine = []struct {
	ids             string
	quick, thorough int
}{
	{"c01-cs-2sends-perm0 c01-cp-2sends-perm0 conn-par-4 conn-par-5 conn-par-6 conn-par-7 conn-blink msg-race-cs-0 msg-race-cs-2 msg-race-cs-3 msg-race-cp-0 msg-race-cp-2 msg-race-cp-3 cp-cancel soap-cancel replies-twice-cs replies-twice-cp cp-loss-par-0 cp-loss-par-1 cp-loss-par-2 cp-loss-par-3 cp-loss-par-4 cp-loss-par-5 cp-loss-par-6 cp-cancel-par-0 cp-cancel-par-1 cp-cancel-par-2 cp-cancel-par-3 cp-cancel-par-4 multi-par-0 multi-par-2", 2, 2},
	{"c01-cs-2sends-perm1 c01-cp-2sends-perm1 c01-cs-3sends-perm0 c01-cs-3sends-perm3 c01-cs-3sends-perm5 conn-par-0 conn-par-1 conn-par-2 conn-par-3 conn-par-8 conn-readers e2e-par-1 e2e-par-2 e2e-par-fails cp-close-codes-1 multi-par-1 soap-conc-1 soap-conc-faults-1 soap-conc-faults-2", 1, 2},
	{"e2e-par-3 soap-conc-2", -1, 1},
	{"calls-end-sched-cs calls-end-sched-cp msg-pipeline-sched-cs msg-pipeline-sched-cp msg-race-cs-1 msg-race-cp-1 conn-listeners slow-sched control-sched-cs control-sched-cp", 1, 2},
}

func applyBounds() {
	for _, b := range fine {
		for _, id := range strings.Fields(b.ids) {
			s := findScenario(id)
			if s == nil {
				panic("no scenario " + id)
			}
			c := *s
			c.ID, c.Fine, c.Quick, c.Thorough, c.Race = "fine-"+id, true, b.quick, b.thorough, -1
			c.Desc += "; preemptions before every statement"
			c.Props = nil
			for _, p := range s.Props {
				if p != "C05" {
					c.Props = append(c.Props, p)
				}
			}
			reg(&c)
		}
	}
	for _, b := range bounds {
		for _, id := range strings.Fields(b.ids) {
			s := findScenario(id)
			if s == nil {
				panic("no scenario " + id)
			}
			s.Quick, s.Thorough, s.Race = b.quick, b.thorough, b.race+1
		}
	}
}
