------------------------------ MODULE Steim_MC ------------------------------
EXTENDS SteimCodec, IOUtils
N == atoi(IOEnv.MC_N)
\* differences at the edges of the widths; a series is their running sum
Edges1 == {0, -128, 128, -32769, 2147483647}
Edges2 == {-8, 8, -17, 32, 511, -16385, 536870911}
SeriesOver(E, n) == { Integrate(d, n, 0) : d \in [1..n -> E] }
Wide == { <<536870912, 0>>, <<0, -536870913, 5>>, <<-2147483647 - 1, 2147483647>>, <<5, 2147483647, -2147483647 - 1>> }
MCSeries1 == UNION { SeriesOver(Edges1, n) : n \in 1..N } \cup Wide
MCSeries2 == UNION { SeriesOver(Edges2, n) : n \in 1..N } \cup Wide
\* long enough for the words that hold five to seven differences
MCSmall2 == UNION { SeriesOver({-8, 7}, n) : n \in {5, 7, 8} }
            \cup UNION { SeriesOver({-9, 15}, n) : n \in {6, 7} }
            \cup UNION { SeriesOver({31, -33}, n) : n \in {5, 6} }
=============================================================================
