----------------------------- MODULE XChaCha20 -----------------------------
(***************************************************************************)
(* XChaCha20 as used for chunks: 256-bit key, the first 24 bytes of the    *)
(* chunk id as nonce, 64-bit block counter from 0.  Also the forms in      *)
(* which keys are given.  32-bit words are pairs <<high, low>> of 16 bits. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

M16 == 65536
P2 == [k \in 0..16 |-> IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE IF k = 2 THEN 4 ELSE IF k = 3 THEN 8
        ELSE IF k = 4 THEN 16 ELSE IF k = 5 THEN 32 ELSE IF k = 6 THEN 64 ELSE IF k = 7 THEN 128
        ELSE IF k = 8 THEN 256 ELSE IF k = 9 THEN 512 ELSE IF k = 10 THEN 1024 ELSE IF k = 11 THEN 2048
        ELSE IF k = 12 THEN 4096 ELSE IF k = 13 THEN 8192 ELSE IF k = 14 THEN 16384
        ELSE IF k = 15 THEN 32768 ELSE 65536]
Add(a, b) == LET lo == a[2] + b[2]
             IN <<((a[1] + b[1]) + (lo \div M16)) % M16, lo % M16>>
XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Rol(a, r) == IF r = 16 THEN <<a[2], a[1]>>
             ELSE <<((a[1] * P2[r]) % M16) + (a[2] \div P2[16 - r]), ((a[2] * P2[r]) % M16) + (a[1] \div P2[16 - r])>>

QR(s, a, b, c, d) ==
    LET a1 == Add(s[a], s[b])
        d1 == Rol(XorW(s[d], a1), 16)
        c1 == Add(s[c], d1)
        b1 == Rol(XorW(s[b], c1), 12)
        a2 == Add(a1, b1)
        d2 == Rol(XorW(d1, a2), 8)
        c2 == Add(c1, d2)
        b2 == Rol(XorW(b1, c2), 7)
    IN [s EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]

DoubleRound(s) ==
    LET s1 == QR(s, 1, 5, 9, 13)
        s2 == QR(s1, 2, 6, 10, 14)
        s3 == QR(s2, 3, 7, 11, 15)
        s4 == QR(s3, 4, 8, 12, 16)
        s5 == QR(s4, 1, 6, 11, 16)
        s6 == QR(s5, 2, 7, 12, 13)
        s7 == QR(s6, 3, 8, 9, 14)
    IN QR(s7, 4, 5, 10, 15)
Rounds(s) == FoldLeft(LAMBDA x, n : DoubleRound(x), s, [n \in 1..10 |-> n])

\* little endian: n words from bytes b
Words(b, n) == [k \in 1..n |-> <<b[4 * k] * 256 + b[(4 * k) - 1], b[(4 * k) - 2] * 256 + b[(4 * k) - 3]>>]
Bytes(w) == FlattenSeq([k \in 1..Len(w) |-> <<w[k][2] % 256, w[k][2] \div 256, w[k][1] % 256, w[k][1] \div 256>>])
Const == <<<<24944, 30821>>, <<13088, 25710>>, <<31074, 11570>>, <<27424, 25972>>>>      \* expand 32-byte k

\* the subkey for the first 16 bytes of a nonce
HChaCha20(key, n16) == LET r == Rounds(Const \o Words(key, 8) \o Words(n16, 4))
                       IN Bytes(SubSeq(r, 1, 4) \o SubSeq(r, 13, 16))
\* block number n (below 2^31) for a nonce of 8 bytes
ChaBlock(key, n, n8) == LET s == Const \o Words(key, 8) \o <<<<n \div M16, n % M16>>, <<0, 0>>>> \o Words(n8, 2)
                            r == Rounds(s)
                        IN Bytes([k \in 1..16 |-> Add(r[k], s[k])])

\* the subkey and the rest of the nonce for a chunk
Subkey(key, id) == HChaCha20(key, SubSeq(id, 1, 16))
Rest(id) == SubSeq(id, 17, 24)
\* byte at pos (from 0) of the stream, and a piece of it within one block
Piece(sub, n8, pos, len) == SubSeq(ChaBlock(sub, pos \div 64, n8), (pos % 64) + 1, (pos % 64) + len)

(***************************************************************************)
(* Keys                                                                    *)
(***************************************************************************)
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
IsKey(s) == Len(s) = 64 /\ \A k \in 1..64 : Digit(s[k]) >= 0
HexKey(s) == [k \in 1..32 |-> Digit(s[(2 * k) - 1]) * 16 + Digit(s[2 * k])]
RECURSIVE Chomp(_)
Chomp(s) == IF s # <<>> /\ s[Len(s)] \in {10, 13} THEN Chomp(SubSeq(s, 1, Len(s) - 1)) ELSE s

NoKey == <<>>
\* form: how the key was given; text: the digits, or content of the file; there: whether the variable or file exists
KeyOf(form, text, there) ==
    CASE form = "key" -> IF IsKey(text) THEN HexKey(text) ELSE NoKey
      [] form = "env" -> IF there /\ IsKey(text) THEN HexKey(text) ELSE NoKey
      [] form = "file" -> IF there /\ IsKey(Chomp(text)) THEN HexKey(Chomp(text)) ELSE NoKey
      [] OTHER -> NoKey

(***************************************************************************)
(* draft-irtf-cfrg-xchacha-03, sections 2.2.1 and A.2.1                    *)
(***************************************************************************)
ASSUME HChaCha20([k \in 1..32 |-> k - 1], <<0, 0, 0, 9, 0, 0, 0, 74, 0, 0, 0, 0, 49, 65, 89, 39>>)
       = <<130, 65, 59, 66, 39, 178, 123, 254, 211, 14, 66, 80, 138, 135, 125, 115,
           160, 249, 228, 213, 138, 116, 168, 83, 193, 46, 196, 19, 38, 211, 236, 220>>
VKey == [k \in 1..32 |-> k + 127]
VNonce == [k \in 1..24 |-> IF k = 24 THEN 88 ELSE k + 63]
\* "The dhole (prono" encrypted
ASSUME [k \in 1..16 |-> <<84, 104, 101, 32, 100, 104, 111, 108, 101, 32, 40, 112, 114, 111, 110, 111>>[k]
                        ^^ Piece(Subkey(VKey, VNonce), Rest(VNonce), 0, 16)[k]]
       = <<69, 89, 171, 186, 78, 72, 193, 97, 2, 232, 187, 44, 5, 230, 148, 127>>
=============================================================================
