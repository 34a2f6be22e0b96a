---------------------------- MODULE SecretJudge -----------------------------
(* Judges recorded blobs, secure strings and what was read of them.          *)
EXTENDS Secret, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.TRACE)

Blob(t, want, what) == IF ~IsBase64(t) THEN what \o " is not base64" ELSE IF Bytes(t) # want THEN what \o " is not in the documented format" ELSE ""
Verdict(c) ==
    CASE c.k = "pub" -> IF Len(c.n) # 256 THEN "the modulus does not have 2048 bits" ELSE Blob(c.text, PubBlob(c.e, c.n), "the public key")
      [] c.k = "key" -> IF Len(c.x) # 256 THEN "the encrypted session key does not have 2048 bits" ELSE IF c.len # 32 THEN "the session key cannot be decrypted to 256 bits" ELSE Blob(c.text, KeyBlob(c.x), "the session key")
      [] c.k = "sent" -> IF ~IsBase64(c.text) THEN "the secure string is not base64" ELSE IF c.plain # Plain(c.u) THEN "the secure string is not the encryption of its text" ELSE ""
      [] c.k = "seen" -> IF c.u = c.got THEN "" ELSE "the other side reads another text"
      [] c.k = "place" -> IF Refused(c.p.route, c.p.exchanged) THEN (IF c.out # "missing_cipher" THEN "a secret is not refused before the key is there" ELSE IF c.queued THEN "something of a refused secret is sent" ELSE "")
                          ELSE IF c.out # "ok" THEN "a secret is refused with the key" ELSE IF c.clear THEN "the secret travels in clear" ELSE IF c.found = 0 THEN "the secret does not travel" ELSE ""

VARIABLE t
Init == t = 1
Next == /\ t <= Len(Cases)
        /\ LET v == Verdict(Cases[t]) IN IF v = "" THEN TRUE ELSE PrintT(ToJson([bad |-> TRUE, trace |-> t, line |-> 1, why |-> v]))
        /\ t' = t + 1
Report == t > Len(Cases) => PrintT(ToJson([done |-> TRUE, n |-> t - 1]))
Spec == Init /\ [][Next]_t
=============================================================================
