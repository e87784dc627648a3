package gen

import "strconv"

func quote(b []byte) string { return strconv.Quote(string(b)) }
func itoa(n int) string     { return strconv.Itoa(n) }
