package guava

import (
	"testing"

	"axverif/fw"
)

func TestAXV(t *testing.T) { fw.Main(t) }

var _ = fw.Scale(4)
