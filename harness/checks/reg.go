// Package checks holds one closed driver family per property.
package checks

import (
	"sort"
	"time"

	"verif/harness/mc"
)

// Property is a registered check.
type Property struct {
	ID            string
	Level         string
	Rule          string
	Assumptions   []string
	Scenarios     []mc.Scenario
	QuickDeadline time.Duration
	// Extra may add measured facts to the evidence.
	Extra func(cfg *mc.Config, res *mc.Result) map[string]interface{}
}

// SlowAfter is only informative.
func (p *Property) SlowAfter() float64 { return 90 }

var registry = map[string]*Property{}

func register(p *Property) {
	if p.Level == "" {
		p.Level = "model_checking"
	}
	registry[p.ID] = p
}

// Find finds a check.
func Find(id string) *Property { return registry[id] }

// All lists the checks in order.
func All() []*Property {
	var ps []*Property
	for _, p := range registry {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].ID < ps[j].ID })
	return ps
}
