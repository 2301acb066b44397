---- MODULE DStreamMC ----
\* streams and settings for the model of the decompression stream
EXTENDS DStreamImpl
C(n) == <<"C", 2, n, n>>   RC(n) == <<"R", 2, n, n>>   L(p, u) == <<"L", 3, p, u>>   X(p, u) == <<"X", 3, p, u>>
Chunks == { << >>, <<RC(1)>>, <<RC(3), C(2)>>, <<X(2, 1)>>, <<X(4, 2), L(3, 9)>>, <<X(2, 3), X(5, 4)>>, <<X(9, 4), X(2, 2), X(6, 3)>>,
            <<RC(7), X(3, 5), L(8, 3), X(2, 1)>>, <<X(3, 2), C(4), X(7, 9), C(1), L(2, 2)>>, <<X(4, 4), X(4, 4), X(4, 4), X(4, 4)>>, <<X(13, 11), X(2, 2)>> }
Few == { <<RC(3), C(2)>>, <<X(4, 2), L(3, 9)>>, <<X(9, 4), X(2, 2), X(6, 3)>>, <<X(3, 2), C(4), X(7, 9), C(1), L(2, 2)>> }
W(ch, hash, thr, lim) == {[ch |-> c, hash |-> h, thr |-> n, lim |-> l, dict |-> 4, trail |-> 2] : c \in ch, h \in hash, n \in thr, l \in lim}
Small == W({<<RC(3), C(2)>>, <<X(9, 4), X(2, 2), X(6, 3)>>}, {2}, {1}, {0}) \cup W({<<X(9, 4), X(2, 2), X(6, 3)>>, <<X(3, 2), C(4), X(7, 9), C(1), L(2, 2)>>}, {2}, {2}, {0, 9, 14, 30, 100})
Quick == W(Few, {2}, {1}, {0}) \cup W(Few, {2}, {2, 3}, {0, 9, 14, 30, 100})
All == W(Chunks, {0, 2}, {1}, {0}) \cup W(Chunks, {0, 2}, {2, 3}, {0, 8, 9, 11, 14, 18, 24, 30, 40, 100})
====
