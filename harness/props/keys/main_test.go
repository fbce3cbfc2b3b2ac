package keys

import (
	"testing"

	"axverif/fw"
)

func TestAXV(t *testing.T) { fw.Main(t) }
