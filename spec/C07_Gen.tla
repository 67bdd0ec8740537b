------------------------------ MODULE C07_Gen ------------------------------
(* Symbols: (character, index) pairs chosen to collide if any bit of either were lost or shared.               *)
(* Characters are code points, indices sequences of decimal digits (they exceed TLC's integers).                *)
EXTENDS Gen

Pow2Digits == << <<1>>, <<2>>, <<4>>, <<8>>, <<1,6>>, <<3,2>>, <<6,4>>, <<1,2,8>>, <<2,5,6>>, <<5,1,2>>, <<1,0,2,4>>, <<4,0,9,6>>, <<6,5,5,3,5>>, <<6,5,5,3,6>>,
   <<1,0,4,8,5,7,6>>, <<1,6,7,7,7,2,1,5>>, <<1,6,7,7,7,2,1,6>>, <<2,6,8,4,3,5,4,5,6>>, <<1,0,7,3,7,4,1,8,2,4>>, <<2,1,4,7,4,8,3,6,4,7>>, <<2,1,4,7,4,8,3,6,4,8>>,
   <<4,2,9,4,9,6,7,2,9,4>>, <<4,2,9,4,9,6,7,2,9,5>> >>
Digits == << <<0>>, <<3>>, <<7>>, <<9>>, <<1,0>>, <<4,2>>, <<9,9>>, <<1,0,0>>, <<1,2,3,4,5,6,7,8,9>> >> \o Pow2Digits
\* code points: ASCII, every power of two and its neighbours, the ends of the planes and of the surrogate gap
Chars == << 97, 98, 120, 122, 65, 66, 88, 90, 48, 57, 32, 0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 33, 64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 945, 946, 1023, 1024, 2048, 4095, 4096, 8192,
            16383, 16384, 20013, 32768, 55295, 57344, 65533, 65535, 65536, 65537, 65633, 128512, 131072, 131169, 262144, 524288, 786432, 1048575, 1048576, 1048673, 1114110, 1114111 >>
RawCase(st) == [t |-> "keys", syms |-> [i \in 1..24 |-> LET c == OneOf(st, 2 * (i % 12), Chars)   d == OneOf(st, 2 * (i % 12) + 1 + (IF i > 12 THEN 1000 ELSE 0), Digits) IN
                                          [ch |-> IF i > 18 THEN OneOf(st, 5000 + i, Chars) ELSE c, idx |-> d]]]
\* all characters with one index, all indices with one character
AllChars(d) == [t |-> "keys", syms |-> [i \in 1..Len(Chars) |-> [ch |-> Chars[i], idx |-> d]]]
AllIdx(ch) == [t |-> "keys", syms |-> [i \in 1..Len(Digits) |-> [ch |-> ch, idx |-> Digits[i]]]]
\* symbol types: predefined ones and some made by the harness with assign_symbols!, with the letter of each
Types == << [n |-> "A", ch |-> 97], [n |-> "B", ch |-> 98], [n |-> "C", ch |-> 99], [n |-> "D", ch |-> 100], [n |-> "E", ch |-> 101], [n |-> "F", ch |-> 102], [n |-> "G", ch |-> 103],
            [n |-> "H", ch |-> 104], [n |-> "I", ch |-> 105], [n |-> "J", ch |-> 106], [n |-> "K", ch |-> 107], [n |-> "L", ch |-> 108], [n |-> "M", ch |-> 109], [n |-> "N", ch |-> 110],
            [n |-> "O", ch |-> 111], [n |-> "P", ch |-> 112], [n |-> "Q", ch |-> 113], [n |-> "R", ch |-> 114], [n |-> "S", ch |-> 115], [n |-> "T", ch |-> 116], [n |-> "U", ch |-> 117],
            [n |-> "V", ch |-> 118], [n |-> "W", ch |-> 119], [n |-> "X", ch |-> 120], [n |-> "Y", ch |-> 121], [n |-> "Z", ch |-> 122],
            [n |-> "my.A", ch |-> 97], [n |-> "my.X", ch |-> 120], [n |-> "my.Z", ch |-> 122], [n |-> "my.Lm", ch |-> 108], [n |-> "my.POSE", ch |-> 112], [n |-> "my.velocityA", ch |-> 118],
            [n |-> "my.Bias2", ch |-> 98], [n |-> "my.Delta", ch |-> 948], [n |-> "my.Eacute", ch |-> 233], [n |-> "my.Zhong", ch |-> 20013] >>
TypeCase(st) == [t |-> "keytypes", syms |-> [i \in 1..Len(Types) |-> [n |-> Types[i].n, ch |-> Types[i].ch, idx |-> OneOf(st, i, Digits)]]]
TypeSame(d) == [t |-> "keytypes", syms |-> [i \in 1..Len(Types) |-> [n |-> Types[i].n, ch |-> Types[i].ch, idx |-> d]]]
\* Values with some symbols, printed
Shown == SelectSeq(Chars, LAMBDA x : x > 96 /\ x # 127 /\ x < 1000)
ShowCase(st) == [t |-> "keyshow", syms |-> [i \in 1..(1 + Pick(st, 1, 6)) |-> [ch |-> Shown[1 + ((i * 3 + Pick(st, 2, 5)) % Len(Shown))], idx |-> OneOf(st, 10 + i, Digits)]]]
\* round trip of every character
Sweep(k) == [t |-> "keysweep", from |-> 8192 * (k - 1), n |-> IF k = 136 THEN 8192 ELSE 8192, idx |-> Digits[1 + ((k + Seed) % Len(Digits))]]
N == Pick2(40, 400)
Scenarios == [i \in 1..N |-> RawCase(i)] \o [i \in 1..6 |-> AllChars(Digits[1 + ((5 * i + Seed) % Len(Digits))])] \o [i \in 1..Len(Chars) |-> AllIdx(Chars[i])]
             \o [i \in 1..N |-> TypeCase(1000 + i)] \o [i \in 1..6 |-> TypeSame(Digits[1 + ((5 * i + Seed) % Len(Digits))])] \o [i \in 1..N |-> ShowCase(2000 + i)]
             \o [k \in 1..136 |-> Sweep(k)]
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
