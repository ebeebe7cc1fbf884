package gen

import "testing"

func TestCRC(t *testing.T) {
	if c := CRC([]byte("123456789")); c != 0xe9c6d914c4b8d9ca {
		t.Fatalf("%x", c)
	}
}
