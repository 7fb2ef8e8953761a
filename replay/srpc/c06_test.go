package srpc_test

import "testing"

// C06: random packet sequences against the specified queue.
func TestVerifReplay_C06(t *testing.T) { vrCallRounds(t, 20000) }
