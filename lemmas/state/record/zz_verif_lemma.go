package record

// A stored state comes back as it was.

func zzLemmaState(s *State, se StateSerializer) (*State, error) {
	return NewStateFromStructure(zzLemmaStructure(s), se)
}

func zzLemmaSession(r *Session, se SessionSerializer, sse StateSerializer) (*Session, error) {
	return NewSessionFromStructure(zzLemmaSessionStructure(r), se, sse)
}

func zzLemmaStructure(s *State) *StateStructure {
	return s.structure()
}

func zzLemmaSessionStructure(r *Session) *SessionStructure {
	return r.structure()
}
