-------------------------------- MODULE GeoGen --------------------------------
(* Every transition of GeoImpl between states that differ in the sequences of *)
(* values in the buckets, the front and the cache, as an operation script:    *)
(* the shortest way there and then the call.                                  *)
EXTENDS GeoImpl, TLC, TLCExt
CONSTANTS TrackFront, PreMerge
VARIABLE hist

GenInit == Init /\ [track |-> C.track, premerge |-> C.premerge] = [track |-> TrackFront, premerge |-> PreMerge] /\ C.binary /\ C.collect /\ hist = ""
Str(v) == ToString(v)
Op(e) ==
  CASE e.e = "push" -> "p " \o Str(e.v)
    [] e.e = "range" -> IF Len(e.s) = 2 THEN "r " \o Str(e.s[1]) \o " " \o Str(e.s[2])
                        ELSE "r " \o Str(e.s[1]) \o " " \o Str(e.s[2]) \o " " \o Str(e.s[3])
    [] e.e = "pop" -> "o" [] e.e = "top" -> "t" [] e.e = "clear" -> "c"
    [] e.e = "rep" -> "d " \o Str(e.x.v - e.v) [] OTHER -> "?"
GenStep == Next /\ hist' = hist \o Op(ev') \o ";" /\ PrintT(<<"SCRIPT", hist'>>)
GenSpec == GenInit /\ [][GenStep]_<<vars, hist>>
Shape == [i \in DOMAIN S.b |-> [k \in DOMAIN S.b[i].s |-> S.b[i].s[k].v]]
GenView == <<C, Shape, S.f, S.max, next>>

=============================================================================
