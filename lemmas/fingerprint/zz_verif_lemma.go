package fingerprint

// zzLemmaSymmetric: both sides see the same text.
func zzLemmaSymmetric(a, b []byte) (x, y string) {
	return NewDisplay(a, b).DisplayText(), NewDisplay(b, a).DisplayText()
}

// zzLemmaDistinct: fingerprints that differ in a group are shown differently.
func zzLemmaDistinct(a, b []byte) bool {
	return displayStringFor(a) == displayStringFor(b)
}
