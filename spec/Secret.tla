------------------------------- MODULE Secret -------------------------------
(* What travels of secrets (MS-PSRP 2.2.2.3, 2.2.2.4, 2.2.5.1.24): the blob  *)
(* with the public key, the blob with the session key, and secure strings.   *)
(* Bytes are numbers 0..255, numbers of cryptography are bytes, the most     *)
(* significant first.  The arithmetic of RSA and AES is not modelled.        *)
EXTENDS Text

SixBits(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1

Pads(t) == IF t = <<>> THEN 0 ELSE IF t[Len(t)] # 61 THEN 0 ELSE IF t[Len(t) - 1] # 61 THEN 1 ELSE 2
IsBase64(t) == /\ Len(t) % 4 = 0
               /\ \A i \in 1..(Len(t) - Pads(t)) : SixBits(t[i]) >= 0
\* the bytes a base64 text stands for
Bytes(t) == [i \in 1..((Len(t) \div 4) * 3 - Pads(t)) |->
                LET q == ((i - 1) \div 3) * 4
                    B(k) == IF t[q + k] = 61 THEN 0 ELSE SixBits(t[q + k])
                IN  CASE (i - 1) % 3 = 0 -> B(1) * 4 + B(2) \div 16
                      [] (i - 1) % 3 = 1 -> (B(2) % 16) * 16 + B(3) \div 4
                      [] OTHER           -> (B(3) % 4) * 64 + B(4)]

Backwards(b) == [i \in DOMAIN b |-> b[Len(b) + 1 - i]]

\* PUBLICKEYBLOB, version 2, CALG_RSA_KEYX, "RSA1", 2048 bits; then exponent and modulus, least significant first
PubHead == << 6, 2, 0, 0, 0, 164, 0, 0, 82, 83, 65, 49, 0, 8, 0, 0 >>
PubBlob(e, n) == PubHead \o Backwards(e) \o Backwards(n)
\* SIMPLEBLOB, version 2, CALG_AES_256, encrypted with CALG_RSA_KEYX; then the number, least significant first
KeyHead == << 1, 2, 0, 0, 16, 102, 0, 0, 0, 164, 0, 0 >>
KeyBlob(x) == KeyHead \o Backwards(x)

\* UTF-16LE text filled up to whole blocks of 16 (PKCS#7)
Fill(u) == 16 - ((2 * Len(u)) % 16)
Plain(u) == [i \in 1..(2 * Len(u) + Fill(u)) |->
                IF i > 2 * Len(u) THEN Fill(u)
                ELSE IF i % 2 = 1 THEN u[(i + 1) \div 2] % 256 ELSE u[i \div 2] \div 256]

ASSUME Bytes(U("AAEC/w==")) = << 0, 1, 2, 255 >> /\ Bytes(U("+/+/")) = << 251, 255, 191 >> /\ Bytes(<<>>) = <<>>
ASSUME Plain(U("a")) = << 97, 0 >> \o [i \in 1..14 |-> 14] /\ Len(Plain([i \in 1..8 |-> 65])) = 32

(* Where a secret can be: inside what, sent by which operation               *)
Holders == { "bare", "list", "dict", "prop", "adapted", "credential", "nested", "stack", "queue", "enumerable" }
ClientRoutes == { "input", "argument", "parameter", "pool_result", "pipe_result", "app_args" }
ServerRoutes == { "output", "pool_param", "pipe_param", "event", "info", "target", "private" }
\* only the client waits for the key to be exchanged: the server made it
Early == { "app_args", "private" }     \* sent on opening, when there is no key yet
Refused(route, exchanged) == route \in ClientRoutes /\ ~exchanged
=============================================================================
