# The JSON serializers hand exactly the given structure to encoding/json and
# return exactly what it yields; a decoding error is an error.

func serialize.(*JSONSignalMessageSerializer).Serialize(j, m) (r)
  labels C12
  modifies nothing
  ensures jsonable(m)
  ensures nev("json.Marshal") == 1 && evarg("json.Marshal", 0, 0) == *m
  ensures imp(ok(evres("json.Marshal", 0, 1)), b(r) == b(evres("json.Marshal", 0, 0)))

func serialize.(*JSONSignalMessageSerializer).Deserialize(j, q) (r, err)
  labels C12
  modifies nothing
  ensures nev("json.Unmarshal") == 1 && b(evarg("json.Unmarshal", 0, 0)) == b(q)
  ensures iff(ok(err), ok(evres("json.Unmarshal", 0, 0)))
  case ok(err)
    ensures r == evarg("json.Unmarshal", 0, 1)
  case !ok(err)
    ensures r == nil

func serialize.(*JSONPreKeySignalMessageSerializer).Serialize(j, m) (r)
  labels C12
  modifies nothing
  ensures jsonable(m)
  ensures nev("json.Marshal") == 1 && evarg("json.Marshal", 0, 0) == *m
  ensures imp(ok(evres("json.Marshal", 0, 1)), b(r) == b(evres("json.Marshal", 0, 0)))

func serialize.(*JSONPreKeySignalMessageSerializer).Deserialize(j, q) (r, err)
  labels C12
  modifies nothing
  ensures nev("json.Unmarshal") == 1 && b(evarg("json.Unmarshal", 0, 0)) == b(q)
  ensures iff(ok(err), ok(evres("json.Unmarshal", 0, 0)))
  case ok(err)
    ensures r == evarg("json.Unmarshal", 0, 1)
  case !ok(err)
    ensures r == nil

func serialize.(*JSONSignedPreKeyRecordSerializer).Serialize(j, m) (r)
  labels C11
  modifies nothing
  ensures jsonable(m)
  ensures nev("json.Marshal") == 1 && evarg("json.Marshal", 0, 0) == *m
  ensures imp(ok(evres("json.Marshal", 0, 1)), b(r) == b(evres("json.Marshal", 0, 0)))

func serialize.(*JSONSignedPreKeyRecordSerializer).Deserialize(j, q) (r, err)
  labels C11
  modifies nothing
  ensures nev("json.Unmarshal") == 1 && b(evarg("json.Unmarshal", 0, 0)) == b(q)
  ensures iff(ok(err), ok(evres("json.Unmarshal", 0, 0)))
  case ok(err)
    ensures r == evarg("json.Unmarshal", 0, 1)
  case !ok(err)
    ensures r == nil

func serialize.(*JSONPreKeyRecordSerializer).Serialize(j, m) (r)
  labels C11
  modifies nothing
  ensures jsonable(m)
  ensures nev("json.Marshal") == 1 && evarg("json.Marshal", 0, 0) == *m
  ensures imp(ok(evres("json.Marshal", 0, 1)), b(r) == b(evres("json.Marshal", 0, 0)))

func serialize.(*JSONPreKeyRecordSerializer).Deserialize(j, q) (r, err)
  labels C11
  modifies nothing
  ensures nev("json.Unmarshal") == 1 && b(evarg("json.Unmarshal", 0, 0)) == b(q)
  ensures iff(ok(err), ok(evres("json.Unmarshal", 0, 0)))
  case ok(err)
    ensures r == evarg("json.Unmarshal", 0, 1)
  case !ok(err)
    ensures r == nil

func serialize.(*JSONStateSerializer).Serialize(j, m) (r)
  labels C11
  modifies nothing
  ensures jsonable(m)
  ensures nev("json.Marshal") == 1 && evarg("json.Marshal", 0, 0) == *m
  ensures imp(ok(evres("json.Marshal", 0, 1)), b(r) == b(evres("json.Marshal", 0, 0)))

func serialize.(*JSONStateSerializer).Deserialize(j, q) (r, err)
  labels C11
  modifies nothing
  ensures nev("json.Unmarshal") == 1 && b(evarg("json.Unmarshal", 0, 0)) == b(q)
  ensures iff(ok(err), ok(evres("json.Unmarshal", 0, 0)))
  case ok(err)
    ensures r == evarg("json.Unmarshal", 0, 1)
  case !ok(err)
    ensures r == nil

func serialize.(*JSONSessionSerializer).Serialize(j, m) (r)
  labels C11
  modifies nothing
  ensures jsonable(m)
  ensures nev("json.Marshal") == 1 && evarg("json.Marshal", 0, 0) == *m
  ensures imp(ok(evres("json.Marshal", 0, 1)), b(r) == b(evres("json.Marshal", 0, 0)))

func serialize.(*JSONSessionSerializer).Deserialize(j, q) (r, err)
  labels C11
  modifies nothing
  ensures nev("json.Unmarshal") == 1 && b(evarg("json.Unmarshal", 0, 0)) == b(q)
  ensures iff(ok(err), ok(evres("json.Unmarshal", 0, 0)))
  case ok(err)
    ensures r == evarg("json.Unmarshal", 0, 1)
  case !ok(err)
    ensures r == nil

func serialize.(*JSONSenderKeyDistributionMessageSerializer).Serialize(j, m) (r)
  labels C12
  modifies nothing
  ensures jsonable(m)
  ensures nev("json.Marshal") == 1 && evarg("json.Marshal", 0, 0) == *m
  ensures imp(ok(evres("json.Marshal", 0, 1)), b(r) == b(evres("json.Marshal", 0, 0)))

func serialize.(*JSONSenderKeyDistributionMessageSerializer).Deserialize(j, q) (r, err)
  labels C12
  modifies nothing
  ensures nev("json.Unmarshal") == 1 && b(evarg("json.Unmarshal", 0, 0)) == b(q)
  ensures iff(ok(err), ok(evres("json.Unmarshal", 0, 0)))
  case ok(err)
    ensures r == evarg("json.Unmarshal", 0, 1)
  case !ok(err)
    ensures r == nil

func serialize.(*JSONSenderKeyMessageSerializer).Serialize(j, m) (r)
  labels C12
  modifies nothing
  ensures jsonable(m)
  ensures nev("json.Marshal") == 1 && evarg("json.Marshal", 0, 0) == *m
  ensures imp(ok(evres("json.Marshal", 0, 1)), b(r) == b(evres("json.Marshal", 0, 0)))

func serialize.(*JSONSenderKeyMessageSerializer).Deserialize(j, q) (r, err)
  labels C12
  modifies nothing
  ensures nev("json.Unmarshal") == 1 && b(evarg("json.Unmarshal", 0, 0)) == b(q)
  ensures iff(ok(err), ok(evres("json.Unmarshal", 0, 0)))
  case ok(err)
    ensures r == evarg("json.Unmarshal", 0, 1)
  case !ok(err)
    ensures r == nil

func serialize.(*JSONSenderKeyStateSerializer).Serialize(j, m) (r)
  labels C11
  modifies nothing
  ensures jsonable(m)
  ensures nev("json.Marshal") == 1 && evarg("json.Marshal", 0, 0) == *m
  ensures imp(ok(evres("json.Marshal", 0, 1)), b(r) == b(evres("json.Marshal", 0, 0)))

func serialize.(*JSONSenderKeyStateSerializer).Deserialize(j, q) (r, err)
  labels C11
  modifies nothing
  ensures nev("json.Unmarshal") == 1 && b(evarg("json.Unmarshal", 0, 0)) == b(q)
  ensures iff(ok(err), ok(evres("json.Unmarshal", 0, 0)))
  case ok(err)
    ensures r == evarg("json.Unmarshal", 0, 1)
  case !ok(err)
    ensures r == nil

func serialize.(*JSONSenderKeySessionSerializer).Serialize(j, m) (r)
  labels C11
  modifies nothing
  ensures jsonable(m)
  ensures nev("json.Marshal") == 1 && evarg("json.Marshal", 0, 0) == *m
  ensures imp(ok(evres("json.Marshal", 0, 1)), b(r) == b(evres("json.Marshal", 0, 0)))

func serialize.(*JSONSenderKeySessionSerializer).Deserialize(j, q) (r, err)
  labels C11
  modifies nothing
  ensures nev("json.Unmarshal") == 1 && b(evarg("json.Unmarshal", 0, 0)) == b(q)
  ensures iff(ok(err), ok(evres("json.Unmarshal", 0, 0)))
  case ok(err)
    ensures r == evarg("json.Unmarshal", 0, 1)
  case !ok(err)
    ensures r == nil

# Every part of a serializer is the one for its kind of object.
func serialize.NewJSONSerializer() (r)
  inline
  labels C11 C12
  modifies nothing
  fresh r
  ensures hastype(r.SignalMessage, "*serialize.JSONSignalMessageSerializer")
  ensures hastype(r.PreKeySignalMessage, "*serialize.JSONPreKeySignalMessageSerializer")
  ensures hastype(r.SignedPreKeyRecord, "*serialize.JSONSignedPreKeyRecordSerializer")
  ensures hastype(r.PreKeyRecord, "*serialize.JSONPreKeyRecordSerializer")
  ensures hastype(r.State, "*serialize.JSONStateSerializer")
  ensures hastype(r.Session, "*serialize.JSONSessionSerializer")
  ensures hastype(r.SenderKeyMessage, "*serialize.JSONSenderKeyMessageSerializer")
  ensures hastype(r.SenderKeyDistributionMessage, "*serialize.JSONSenderKeyDistributionMessageSerializer")
  ensures hastype(r.SenderKeyRecord, "*serialize.JSONSenderKeySessionSerializer")
  ensures hastype(r.SenderKeyState, "*serialize.JSONSenderKeyStateSerializer")

func serialize.NewProtoBufSerializer() (r)
  inline
  labels C11 C12
  modifies nothing
  fresh r
  ensures hastype(r.SignalMessage, "*serialize.ProtoBufSignalMessageSerializer")
  ensures hastype(r.PreKeySignalMessage, "*serialize.ProtoBufPreKeySignalMessageSerializer")
  ensures hastype(r.SignedPreKeyRecord, "*serialize.JSONSignedPreKeyRecordSerializer")
  ensures hastype(r.PreKeyRecord, "*serialize.JSONPreKeyRecordSerializer")
  ensures hastype(r.State, "*serialize.JSONStateSerializer")
  ensures hastype(r.Session, "*serialize.JSONSessionSerializer")
  ensures hastype(r.SenderKeyMessage, "*serialize.ProtoBufSenderKeyMessageSerializer")
  ensures hastype(r.SenderKeyDistributionMessage, "*serialize.ProtoBufSenderKeyDistributionMessageSerializer")
  ensures hastype(r.SenderKeyRecord, "*serialize.JSONSenderKeySessionSerializer")
  ensures hastype(r.SenderKeyState, "*serialize.JSONSenderKeyStateSerializer")

func serialize.NewSerializer() (r)
  inline
  labels C11 C12
  modifies nothing
  fresh r
  ensures r.SignalMessage == nil && r.PreKeySignalMessage == nil && r.SenderKeyMessage == nil && r.SenderKeyDistributionMessage == nil && r.SignedPreKeyRecord == nil && r.PreKeyRecord == nil && r.State == nil && r.Session == nil && r.SenderKeyRecord == nil && r.SenderKeyState == nil
