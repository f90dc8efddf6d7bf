# Safety numbers.  DEC5(x) is the five-digit decimal rendering.
def GROUP(f,o) = (f[o]*4294967296 + f[o+1]*16777216 + f[o+2]*65536 + f[o+3]*256 + f[o+4]) % 100000
def NUMS(f) = cat(DEC5(GROUP(f,0)), DEC5(GROUP(f,5)), DEC5(GROUP(f,10)), DEC5(GROUP(f,15)), DEC5(GROUP(f,20)), DEC5(GROUP(f,25)))

func fingerprint.encodedChunk(hash, offset) (r)
  labels C17
  requires offset >= 0 && offset + 5 <= len(hash)
  modifies nothing
  ensures r == DEC5(GROUP(hash, offset))
  ensures len(r) == 5
  ensures forall(i, 0, 5, 48 <= r[i] && r[i] <= 57)

func fingerprint.displayStringFor(fp) (r)
  labels C17
  requires len(fp) >= 30
  modifies nothing
  ensures r == NUMS(fp)
  ensures len(r) == 30
  ensures forall(i, 0, 30, 48 <= r[i] && r[i] <= 57)

func fingerprint.NewDisplay(l, r) (d)
  labels C17
  requires len(l) >= 30 && len(r) >= 30
  modifies nothing
  fresh d
  ensures d.localFingerprintNumbers == NUMS(l)
  ensures d.remoteFingerprintNumbers == NUMS(r)
  ensures len(d.localFingerprintNumbers) == 30 && forall(i, 0, 30, 48 <= d.localFingerprintNumbers[i] && d.localFingerprintNumbers[i] <= 57)
  ensures len(d.remoteFingerprintNumbers) == 30 && forall(i, 0, 30, 48 <= d.remoteFingerprintNumbers[i] && d.remoteFingerprintNumbers[i] <= 57)

func fingerprint.(*Display).DisplayText(d) (r)
  labels C17
  modifies nothing
  case lexlt(d.localFingerprintNumbers, d.remoteFingerprintNumbers)
    ensures r == cat(d.localFingerprintNumbers, d.remoteFingerprintNumbers)
  case !lexlt(d.localFingerprintNumbers, d.remoteFingerprintNumbers)
    ensures r == cat(d.remoteFingerprintNumbers, d.localFingerprintNumbers)

func fingerprint.NewFingerprint(d) (r)
  labels C17
  modifies nothing
  fresh r
  ensures r.fingerprintDisplay == d

func fingerprint.zzLemmaSymmetric(a, c) (x, y)
  labels C17
  requires len(a) >= 30 && len(c) >= 30
  modifies nothing
  ensures x == y
  ensures len(x) == 60
  ensures forall(i, 0, 30, 48 <= x[i] && x[i] <= 57)
  ensures forall(i, 0, 30, 48 <= x[30:60][i] && x[30:60][i] <= 57)

func fingerprint.zzLemmaDistinct(a, c) (r)
  labels C17
  requires len(a) >= 30 && len(c) >= 30
  modifies nothing
  ensures imp(r, GROUP(a,0) == GROUP(c,0) && GROUP(a,5) == GROUP(c,5) && GROUP(a,10) == GROUP(c,10) && GROUP(a,15) == GROUP(c,15) && GROUP(a,20) == GROUP(c,20) && GROUP(a,25) == GROUP(c,25))
