package record

// A stored sender key record comes back as it was.

func zzLemmaStructure(r *SenderKey) *SenderKeyStructure {
	return r.structure()
}

func zzLemmaSenderKey(r *SenderKey, se SenderKeySerializer, sse SenderKeyStateSerializer) (*SenderKey, error) {
	return NewSenderKeyFromStruct(zzLemmaStructure(r), se, sse)
}
