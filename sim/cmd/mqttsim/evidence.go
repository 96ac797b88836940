package main

import (
	"encoding/json"
	"fmt"
	"os"

	"verifsim/wire"
)

func writeEvidence(path, prop, tier string, seed uint64, t *Agg, distinct, distinctNontriv int, wall float64, viols []any, known map[string]bool) {
	pk := func(a [16]int) map[string]int {
		m := map[string]int{}
		for i, n := range a {
			if n > 0 {
				m[wire.Names[i]] = n
			}
		}
		return m
	}
	real := []string{"mqtt (Client: client.go, events.go, errors.go)", "mqtt/packets", "mqtt/packets/primitives", "mqtt/storage", "mqtt/storage/memory"}
	stub := []string{"network connection (net.Conn) and its deadlines", "MQTT 5 server", "clock, timers and contexts (virtual time)", "goroutine scheduler, locks, channels, select (simulated)",
		"random numbers (seeded)", "application"}
	if prop == "C19" {
		real = []string{"mqtt/storage", "mqtt/storage/memory"}
		stub = []string{"goroutine scheduler and locks (simulated)", "application"}
	}
	if prop == "C21" {
		real = []string{"mqtt/packets", "mqtt/packets/primitives"}
		stub = []string{"disk (files that are written and read)", "goroutine scheduler (simulated)", "application"}
	}
	samples := []any{}
	for _, s := range t.Samples {
		samples = append(samples, s)
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         t.Runs,
			"distinct_nontrivial": distinctNontriv,
			"rule": "a run is one seeded simulated execution; it is non-trivial when at least one API call returned, at least 4 MQTT packets crossed the connection and at least 5 task switches happened " +
				"(for C19: at least two storage calls returned; for C21: at least two records were written); runs are distinct when the hashes of their complete event logs (scheduling decisions, packets, calls, faults, virtual times) differ",
			"samples":                     samples,
			"runs_per_hour_one_seed_each": int(float64(t.Runs) / wall * 3600),
			"simulated_hours":             float64(t.SimNs) / 3.6e12,
			"scheduler_steps":             t.Steps,
			"task_switches":               t.Switches,
			"distinct_executions":         distinct,
			"distinctness_measure":        "64-bit hash of the complete event log of a run, including every scheduling decision",
			"nontrivial_runs":             t.Nontriv,
			"faults_injected":             t.Faults,
			"runs_with_fault":             t.RunsWith,
			"api_calls":                   t.Ops,
			"packets_from_client":         pk(t.Out),
			"packets_from_server":         pk(t.In),
			"situations_reached":          t.Probes,
			"ends":                        t.Ends,
			"components_real":             real,
			"components_stubbed":          stub,
			"known_findings_met":          t.Known,
			"other_properties_broken":     t.Other,
			"time_limit_hit":              t.TimedOut,
		},
		"assumptions": []string{
			"preemption happens at synchronisation operations, channel operations, accesses to shared fields and maps, and transport, storage and timer calls; code between two such points runs atomically",
			"executions are sequentially consistent; unsynchronised accesses are reported by the race oracle (C13) instead of being given weak-memory behaviour",
			"the simulated transport behaves like a TCP connection (ordered, reliable until it breaks, partial reads and writes, deadlines, half-close, reset)",
			"the source rewriting of the simulated build preserves the behaviour of the code under test apart from the scheduling points it adds",
		},
		"wall_s":     wall,
		"violations": len(viols),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	os.WriteFile(path, append(b, '\n'), 0o644)
}
