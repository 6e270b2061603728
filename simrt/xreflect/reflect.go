// Package reflect is reflect with a simulated Select.
package reflect

import (
	std "reflect"

	"github.com/iomz/gosstrak/verif/simrt"
)

func Select(cases []std.SelectCase) (int, std.Value, bool) { return simrt.ReflectSelect(cases) }
