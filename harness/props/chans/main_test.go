package chans

import (
	"testing"

	"axverif/fw"
)

func TestAXV(t *testing.T) { fw.Main(t) }
