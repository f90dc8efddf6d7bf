package cipher

// What was encrypted decrypts to itself.

func zzLemmaRoundTrip(iv, key, plaintext []byte) ([]byte, error) {
	c, err := Encrypt(iv, key, plaintext)
	if err != nil {
		return nil, err
	}
	return Decrypt(iv, key, c)
}
