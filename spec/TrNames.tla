------------------------------ MODULE TrNames -------------------------------
(* Judges what was gathered of namespaces (P21).  A case is                 *)
(* [items (UXReduce), stream |-> whether only what is in scope is to be kept*)
(* , how |-> "events" or "deliver", out, obs |-> for each event <<kind,      *)
(* <<prefix, URI>>...>>, of text one for all in a row, pat, dobs |-> for    *)
(* each delivery, cum, rev |-> mappings in the end, port |-> entries         *)
(* <<is attribute, name, namespace, prefix>>, w |-> out of writing it with  *)
(* the namespaces and parsing that, x |-> its events with expanded names]   *)
EXTENDS UXNames, UXPattern, TLC, Json, IOUtils

CASES == JsonDeserialize(IOEnv.CASES)
VARIABLES i, done

PortOf(c, attr, n) == SelectSeq(c.port, LAMBDA e : e[1] = attr /\ e[2] = n)
AsSet(a) == Range(a)
SameX(e, f) == /\ e.k = f.k /\ e.u = f.u /\ e.n = f.n /\ e.t = f.t
               /\ AsSet(e.a) = AsSet(f.a) /\ Len(e.a) = Len(f.a)
Verdict(c) ==
  LET s == Names(c.items)
      N == Len(s.obs)
      ds == Deliveries(s.r.evs, c.pat)
      used == Range(s.use)
      sure == { w \in used : Sure(s, w[1], w[2]) }
  IN IF ~(s.r.ok /\ s.r.phase = 2) THEN "ok:malformed"
     ELSE IF c.out # "ok" THEN "out-" \o c.out
     ELSE IF c.how = "events" /\ Len(c.obs) # N THEN "number"
     ELSE IF c.how = "events" /\ \E k \in 1..N : c.obs[k][1] # s.x[k].k THEN "events"
     ELSE IF c.stream /\ c.how = "events" /\ \E k \in 1..N : Range(c.obs[k][2]) # s.obs[k]
          THEN "scope#" \o ToString(CHOOSE k \in 1..N : Range(c.obs[k][2]) # s.obs[k])
     ELSE IF c.how = "deliver" /\ Len(ds) # Len(c.dobs) THEN "deliveries"
     ELSE IF c.stream /\ c.how = "deliver" /\ \E k \in 1..Len(ds) : Range(c.dobs[k]) # s.obs[ds[k].e] THEN "scope-delivered"
     ELSE IF c.stream THEN IF c.cum # <<>> THEN "scope-end" ELSE "ok"
     ELSE IF Range(c.cum) # Cumulative(s) THEN "cumulative"
     ELSE IF \E d \in Cumulative(s) : \A e \in Range(c.rev) : e[1] # d[2] THEN "reverse"
     ELSE IF \E e \in Range(c.rev) : e[1] # XmlUri /\ e[1] # <<>> /\ <<e[2], e[1]>> \notin Declared(s) THEN "reverse"
     ELSE IF \E w \in used : ~\E e \in Range(c.port) : e[1] = w[1] /\ e[2] = w[2] /\ e[3] \in Spaces(s, w[1], w[2]) THEN "portfolio"
     ELSE IF \E w \in sure : PortOf(c, w[1], w[2])[1] # <<w[1], w[2]>> \o Entry(s, w[1], w[2]) THEN "portfolio-sure"
     ELSE IF \E e \in Range(c.port) : ~\E w \in used : e[1] = w[1] /\ e[2] = w[2] THEN "portfolio-more"
     ELSE IF ~Simple(s) \/ c.w = "none" THEN "ok"
     \* not a character of MicroXML
     ELSE IF \E k \in 1..Len(s.x) : s.x[k].k = "T" /\ 13 \in Range(s.x[k].t) THEN "ok:return"
     ELSE IF c.w # "ok" THEN "write-" \o c.w
     ELSE IF Len(c.x) # Len(s.x) \/ \E k \in 1..Len(s.x) : ~SameX(c.x[k], s.x[k]) THEN "round-trip"
     ELSE "ok:simple"

Init == i \in 1..Len(CASES) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ PrintT("V " \o ToString(i) \o " " \o Verdict(CASES[i]))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
