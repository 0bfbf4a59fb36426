---- MODULE Digest ----
(* MD5 (RFC 1321), SHA-1, SHA-224 and SHA-256 (FIPS 180) as their standards define them, on the whole message.
   A 32-bit word is <<low, high>> 16-bit halves.  The state is the message absorbed so far; how it was divided
   into updates must not matter. *)
EXTENDS Lib
LOCAL INSTANCE Bitwise
H16 == 65536
XorW(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
AndW(x, y) == <<x[1] & y[1], x[2] & y[2]>>
OrW(x, y) == <<x[1] | y[1], x[2] | y[2]>>
NotW(x) == <<65535 - x[1], 65535 - x[2]>>
Plus(x, y) == LET l == x[1] + y[1] IN <<l % H16, (x[2] + y[2] + l \div H16) % H16>>
Sum(q) == LET l == SumSeq([i \in DOMAIN q |-> q[i][1]])  h == SumSeq([i \in DOMAIN q |-> q[i][2]])
          IN <<l % H16, (h + l \div H16) % H16>>
Shr(x, n) == IF n >= 16 THEN <<x[2] \div (2 ^ (n - 16)), 0>>
             ELSE <<x[1] \div (2 ^ n) + (x[2] % (2 ^ n)) * (2 ^ (16 - n)), x[2] \div (2 ^ n)>>
Ror(x, n) == IF n = 0 THEN x ELSE IF n = 16 THEN <<x[2], x[1]>>
             ELSE IF n < 16 THEN <<x[1] \div (2 ^ n) + (x[2] % (2 ^ n)) * (2 ^ (16 - n)), x[2] \div (2 ^ n) + (x[1] % (2 ^ n)) * (2 ^ (16 - n))>>
             ELSE LET m == n - 16 IN <<x[2] \div (2 ^ m) + (x[1] % (2 ^ m)) * (2 ^ (16 - m)), x[1] \div (2 ^ m) + (x[2] % (2 ^ m)) * (2 ^ (16 - m))>>
Rol(x, n) == Ror(x, 32 - n)

(* padding: a one bit, zeros up to 56 modulo 64 bytes, the length in bits *)
Zeros(n) == [i \in 1..n |-> 0]
BitLen(n) == <<(8 * n) % 256, (n \div 32) % 256, (n \div 8192) % 256, (n \div 2097152) % 256, 0, 0, 0, 0>>    \* little endian
Padded(m, le) == LET z == (119 - (Len(m) % 64)) % 64
                 IN m \o <<128>> \o Zeros(z) \o (IF le THEN BitLen(Len(m)) ELSE Rev(BitLen(Len(m))))
WordAt(p, i, le) == IF le THEN <<p[i] + 256 * p[i + 1], p[i + 2] + 256 * p[i + 3]>> ELSE <<p[i + 3] + 256 * p[i + 2], p[i + 1] + 256 * p[i]>>
Block(p, b, le) == [j \in 1..16 |-> WordAt(p, 64 * b + 4 * j - 3, le)]
BytesOf(x, le) == LET q == <<x[1] % 256, x[1] \div 256, x[2] % 256, x[2] \div 256>> IN IF le THEN q ELSE Rev(q)
Seq0(n) == [i \in 1..n |-> i - 1]

MD5T == <<
    <<42104, 55146>>, <<46934, 59591>>, <<28891, 9248>>, <<52974, 49597>>,
    <<4015, 62844>>, <<50730, 18311>>, <<17939, 43056>>, <<38145, 64838>>,
    <<39128, 27008>>, <<63407, 35652>>, <<23473, 65535>>, <<55230, 35164>>,
    <<4386, 27536>>, <<29075, 64920>>, <<17294, 42617>>, <<2081, 18868>>,
    <<9570, 63006>>, <<45888, 49216>>, <<23121, 9822>>, <<51114, 59830>>,
    <<4189, 54831>>, <<5203, 580>>, <<59009, 55457>>, <<64456, 59347>>,
    <<52710, 8673>>, <<2006, 49975>>, <<3463, 62677>>, <<5357, 17754>>,
    <<59653, 43491>>, <<41976, 64751>>, <<729, 26479>>, <<19594, 36138>>,
    <<14658, 65530>>, <<63105, 34673>>, <<24866, 28061>>, <<14348, 64997>>,
    <<59972, 42174>>, <<53161, 19422>>, <<19296, 63163>>, <<48240, 48831>>,
    <<32454, 10395>>, <<10234, 60065>>, <<12421, 54511>>, <<7429, 1160>>,
    <<53305, 55764>>, <<39397, 59099>>, <<31992, 8098>>, <<22117, 50348>>,
    <<8772, 62505>>, <<65431, 17194>>, <<9127, 43924>>, <<41017, 64659>>,
    <<22979, 25947>>, <<52370, 36620>>, <<62589, 65519>>, <<24017, 34180>>,
    <<32335, 28584>>, <<59104, 65068>>, <<17172, 41729>>, <<4513, 19976>>,
    <<32386, 63315>>, <<62005, 48442>>, <<53947, 10967>>, <<54161, 60294>>
    >>
K256 == <<
    <<12184, 17034>>, <<17553, 28983>>, <<64463, 46528>>, <<56229, 59829>>,
    <<49755, 14678>>, <<4593, 23025>>, <<33444, 37439>>, <<24277, 43804>>,
    <<43672, 55303>>, <<23297, 4739>>, <<34238, 9265>>, <<32195, 21772>>,
    <<23924, 29374>>, <<45566, 32990>>, <<1703, 39900>>, <<61812, 49563>>,
    <<27073, 58523>>, <<18310, 61374>>, <<40390, 4033>>, <<41420, 9228>>,
    <<11375, 11753>>, <<33962, 19060>>, <<43484, 23728>>, <<35034, 30457>>,
    <<20818, 38974>>, <<50797, 43057>>, <<10184, 45059>>, <<32711, 48985>>,
    <<3059, 50912>>, <<37191, 54695>>, <<25425, 1738>>, <<10599, 5161>>,
    <<2693, 10167>>, <<8504, 11803>>, <<28156, 19756>>, <<3347, 21304>>,
    <<29524, 25866>>, <<2747, 30314>>, <<51502, 33218>>, <<11397, 37490>>,
    <<59553, 41663>>, <<26187, 43034>>, <<35696, 49739>>, <<20899, 51052>>,
    <<59417, 53650>>, <<1572, 54937>>, <<13701, 62478>>, <<41072, 4202>>,
    <<49430, 6564>>, <<27656, 7735>>, <<30540, 10056>>, <<48309, 13488>>,
    <<3251, 14620>>, <<43594, 20184>>, <<51791, 23452>>, <<28659, 26670>>,
    <<33518, 29839>>, <<25455, 30885>>, <<30740, 33992>>, <<520, 36039>>,
    <<65530, 37054>>, <<27883, 42064>>, <<41975, 48889>>, <<30962, 50801>>
    >>
IV5 == <<
    <<8961, 26437>>, <<43913, 61389>>, <<56574, 39098>>, <<21622, 4146>>
    >>
IV1 == <<
    <<8961, 26437>>, <<43913, 61389>>, <<56574, 39098>>, <<21622, 4146>>,
    <<57840, 50130>>
    >>
IV256 == <<
    <<58983, 27145>>, <<44677, 47975>>, <<62322, 15470>>, <<62778, 42319>>,
    <<21119, 20750>>, <<26764, 39685>>, <<55723, 8067>>, <<52505, 23520>>
    >>
IV224 == <<
    <<40664, 49413>>, <<54535, 13948>>, <<56599, 12400>>, <<22841, 63246>>,
    <<2865, 65472>>, <<5393, 26712>>, <<36775, 25849>>, <<20388, 48890>>
    >>
K1 == <<
    <<31129, 23170>>, <<60321, 28377>>, <<48348, 36635>>, <<49622, 51810>>
    >>

MD5R == <<<<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>>>>
MD5Round(x, v, i) ==
  LET r == i \div 16  A == v[1]  b == v[2]  c == v[3]  d == v[4]
      f == CASE r = 0 -> OrW(AndW(b, c), AndW(NotW(b), d)) [] r = 1 -> OrW(AndW(b, d), AndW(c, NotW(d)))
             [] r = 2 -> XorW(b, XorW(c, d)) [] OTHER -> XorW(c, OrW(b, NotW(d)))
      g == CASE r = 0 -> i [] r = 1 -> (5 * i + 1) % 16 [] r = 2 -> (3 * i + 5) % 16 [] OTHER -> (7 * i) % 16
  IN <<d, Plus(b, Rol(Sum(<<A, f, x[g + 1], MD5T[i + 1]>>), MD5R[r + 1][(i % 4) + 1])), b, c>>
MD5Block(h, x) == LET v == Fold(LAMBDA acc, i : MD5Round(x, acc, i), h, Seq0(64)) IN [j \in 1..4 |-> Plus(h[j], v[j])]

SHA1W(x) == Fold(LAMBDA w, i : Append(w, Rol(XorW(XorW(w[i - 3], w[i - 8]), XorW(w[i - 14], w[i - 16])), 1)), x, [i \in 1..64 |-> i + 16])
SHA1Round(w, v, i) ==
  LET t == i \div 20  b == v[2]  c == v[3]  d == v[4]
      f == CASE t = 0 -> OrW(AndW(b, c), AndW(NotW(b), d)) [] t = 2 -> OrW(AndW(b, c), OrW(AndW(b, d), AndW(c, d))) [] OTHER -> XorW(b, XorW(c, d))
  IN <<Sum(<<Rol(v[1], 5), f, v[5], K1[t + 1], w[i + 1]>>), v[1], Rol(b, 30), c, d>>
SHA1Block(h, x) == LET w == SHA1W(x)  v == Fold(LAMBDA acc, i : SHA1Round(w, acc, i), h, Seq0(80)) IN [j \in 1..5 |-> Plus(h[j], v[j])]

Sg0(x) == XorW(Ror(x, 7), XorW(Ror(x, 18), Shr(x, 3)))
Sg1(x) == XorW(Ror(x, 17), XorW(Ror(x, 19), Shr(x, 10)))
SHA2W(x) == Fold(LAMBDA w, i : Append(w, Sum(<<Sg1(w[i - 2]), w[i - 7], Sg0(w[i - 15]), w[i - 16]>>)), x, [i \in 1..48 |-> i + 16])
SHA2Round(w, v, i) ==
  LET e == v[5]
      ch == XorW(AndW(e, v[6]), AndW(NotW(e), v[7]))
      maj == XorW(AndW(v[1], v[2]), XorW(AndW(v[1], v[3]), AndW(v[2], v[3])))
      t1 == Sum(<<v[8], XorW(Ror(e, 6), XorW(Ror(e, 11), Ror(e, 25))), ch, K256[i + 1], w[i + 1]>>)
      t2 == Plus(XorW(Ror(v[1], 2), XorW(Ror(v[1], 13), Ror(v[1], 22))), maj)
  IN <<Plus(t1, t2), v[1], v[2], v[3], Plus(v[4], t1), v[5], v[6], v[7]>>
SHA2Block(h, x) == LET w == SHA2W(x)  v == Fold(LAMBDA acc, i : SHA2Round(w, acc, i), h, Seq0(64)) IN [j \in 1..8 |-> Plus(h[j], v[j])]

Hash(alg, m) ==
  LET le == alg = "md5"
      p == Padded(m, le)
      iv == CASE alg = "md5" -> IV5 [] alg = "sha1" -> IV1 [] alg = "sha224" -> IV224 [] OTHER -> IV256
      one(h, x) == CASE alg = "md5" -> MD5Block(h, x) [] alg = "sha1" -> SHA1Block(h, x) [] OTHER -> SHA2Block(h, x)
      h == Fold(LAMBDA acc, b : one(acc, Block(p, b, le)), iv, Seq0(Len(p) \div 64))
  IN Flatten([i \in 1..(IF alg = "sha224" THEN 7 ELSE Len(h)) |-> BytesOf(h[i], le)])


Step(s, op, a) ==
  CASE op = "init" -> {[s |-> [k |-> "open", alg |-> a[1], m |-> <<>>], r |-> 0]}
    [] op = "update" -> IF s.k # "open" THEN {} ELSE {[s |-> [s EXCEPT !.m = @ \o a[1]], r |-> 0]}
    [] op = "finish" -> IF s.k # "open" THEN {} ELSE {[s |-> [s EXCEPT !.k = "done", !.m = <<>>], r |-> Hash(s.alg, s.m)]}
Inv(s) == s.k = "done" => s.m = <<>>

Abc == <<97, 98, 99>>
ASSUME (* published test vectors *)
  /\ Hash("md5", Abc) = <<144, 1, 80, 152, 60, 210, 79, 176, 214, 150, 63, 125, 40, 225, 127, 114>>
  /\ Hash("md5", <<>>) = <<212, 29, 140, 217, 143, 0, 178, 4, 233, 128, 9, 152, 236, 248, 66, 126>>
  /\ Hash("sha1", Abc) = <<169, 153, 62, 54, 71, 6, 129, 106, 186, 62, 37, 113, 120, 80, 194, 108, 156, 208, 216, 157>>
  /\ Hash("sha1", <<>>) = <<218, 57, 163, 238, 94, 107, 75, 13, 50, 85, 191, 239, 149, 96, 24, 144, 175, 216, 7, 9>>
  /\ Hash("sha224", Abc) = <<35, 9, 125, 34, 52, 5, 216, 34, 134, 66, 164, 119, 189, 162, 85, 179, 42, 173, 188, 228, 189, 160, 179, 247, 227, 108, 157, 167>>
  /\ Hash("sha224", <<>>) = <<209, 74, 2, 140, 42, 58, 43, 201, 71, 97, 2, 187, 40, 130, 52, 196, 21, 162, 176, 31, 130, 142, 166, 42, 197, 179, 228, 47>>
  /\ Hash("sha256", Abc) = <<186, 120, 22, 191, 143, 1, 207, 234, 65, 65, 64, 222, 93, 174, 34, 35, 176, 3, 97, 163, 150, 23, 122, 156, 180, 16, 255, 97, 242, 0, 21, 173>>
  /\ Hash("sha256", <<>>) = <<227, 176, 196, 66, 152, 252, 28, 20, 154, 251, 244, 200, 153, 111, 185, 36, 39, 174, 65, 228, 100, 155, 147, 76, 164, 149, 153, 27, 120, 82, 184, 85>>
====
