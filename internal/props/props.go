// Package props holds the properties: reference models, bounded generators and
// oracles, all written against the public API of go3mf.
package props

import (
	"sort"

	"verif3mf/internal/mc"
)

var registry = map[string]*mc.Property{}

func register(p *mc.Property) { registry[p.ID] = p }

// Get returns a property by id.
func Get(id string) *mc.Property { return registry[id] }

// All returns every property sorted by id.
func All() []*mc.Property {
	var out []*mc.Property
	for _, p := range registry {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}
