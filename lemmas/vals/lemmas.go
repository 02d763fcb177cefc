package vals

func lemmaTypeRoundTrip(t Type) Type { return TypeFromString(t.String()) }

// lemmaCompareSwap: comparing the other way round gives the opposite answer.
func lemmaCompareSwap(a, b []byte, t Type) bool {
	r, err := CompareTypeBytes(a, b, t)
	s, err2 := CompareTypeBytes(b, a, t)
	return (err == nil) == (err2 == nil) && (err != nil || r == -s)
}

// lemmaTextRoundTrip: a string, an integer or a truth value written as text parses back.
func lemmaTextRoundTrip(dt Type, v interface{}) bool {
	b, err := dt.ValueToBytes(v)
	if err != nil {
		return true
	}
	p, err := dt.Parse(b)
	if err != nil {
		return false
	}
	switch x := v.(type) {
	case string:
		s, ok := p.(string)
		return ok && s == x
	case int:
		n, ok := p.(int64)
		return ok && n == int64(x)
	case bool:
		t, ok := p.(bool)
		return ok && t == x
	}
	return false
}
