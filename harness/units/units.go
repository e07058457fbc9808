// Package units runs the programs that tools/tplgen.py built from instantiated templates.
package units

import (
	"encoding/json"
	"fmt"
	"os"

	"gxv/mc"
)

// unit is one program built from instantiated templates (see tools/tplgen.py).
type unit struct {
	Name, Bin, Error string
}

// Main runs all of them as parts of one property.
func Main(id string, more ...func(r *mc.Run)) {
	b, err := os.ReadFile("tpl/units.json")
	var us []unit
	if err != nil || json.Unmarshal(b, &us) != nil || len(us) == 0 {
		fmt.Println("no units", err)
		os.Exit(2)
	}
	mc.Main(id, func(r *mc.Run) {
		r.Enumerate(mc.Enum{Name: "compiles", Bounds: "every instantiation",
			Gen: func(emit func(mc.Case)) {
				for i := range us {
					emit(mc.Case{i})
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				if e := us[c[0]].Error; e != "" {
					return fmt.Errorf("the instantiation does not compile: %s", e)
				}
				return nil
			},
			Show: func(c mc.Case) string { return us[c[0]].Name }})
		for _, u := range us {
			if u.Error == "" {
				r.Sub(u.Name, u.Bin)
			}
		}
		for _, f := range more {
			f(r)
		}
	})
}
