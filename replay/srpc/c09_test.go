package srpc_test

import "testing"

// C09: random event sequences; the outcome is the first terminal event's and stays.
func TestVerifReplay_C09(t *testing.T) { vrCallRounds(t, 20000) }
