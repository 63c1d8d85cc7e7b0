--------------------------- MODULE ParticleStore ---------------------------
(* A particle container holds a time and a sequence of particles, each with an *)
(* identity - its position at the time it was added - and its properties.       *)
(* v = <<mass, e1, e2, e3, px, py, pz, vx, vy, vz>>; what e1..e3 are depends on *)
(* the kind of the particle. st = <<store1, store2>>.                            *)
EXTENDS Integers, Sequences
Names == [point |-> <<"mass", "", "", "", "px", "py", "pz", "vx", "vy", "vz">>,
          size  |-> <<"mass", "radius", "", "", "px", "py", "pz", "vx", "vy", "vz">>,
          tide  |-> <<"mass", "radius", "k_AM", "tau_lag", "px", "py", "pz", "vx", "vy", "vz">>,
          drag  |-> <<"mass", "sub_sonic_c", "local_cs", "", "px", "py", "pz", "vx", "vy", "vz">>]
Mask(kind, v) == [k \in 1..10 |-> IF Names[kind][k] = "" THEN 0 ELSE v[k]]
Part(kind, a, k) == Mask(kind, SubSeq(a, k, k + 9))
Made(kind, a) == LET m == (Len(a) - 1) \div 10
                 IN [t |-> a[1], r |-> [k \in 1..m |-> [id |-> k - 1, v |-> Part(kind, a, 10 * k - 8)]]]
(* the store after the operation; e.x is changed, e.y is a source *)
Target(kind, s, u, e) ==
  CASE e.op = "make"  -> Made(kind, e.a)
    [] e.op = "push"  -> [s EXCEPT !.r = Append(@, [id |-> Len(@), v |-> Part(kind, e.a, 1)])]
    [] e.op = "clear" -> [s EXCEPT !.r = <<>>]
    [] e.op = "resize" -> [s EXCEPT !.r = SubSeq(@, 1, IF e.n < Len(@) THEN e.n ELSE Len(@))]
    [] e.op = "time"  -> [s EXCEPT !.t = e.a[1]]
    [] e.op = "set"   -> [s EXCEPT !.r[e.i].v = Part(kind, e.a, 1)]
    [] e.op \in {"copy", "assign"} -> u
    [] OTHER          -> s
(* resizing beyond the end adds particles nobody has described yet *)
Grown(s, e) == e.op = "resize" /\ e.n > Len(s.r)
Observed(p) == [t |-> p.t, r |-> p.r]
Store(kind, s, u, e, p) == LET g == Target(kind, s, u, e)
   IN IF Grown(s, e) THEN /\ p.t = g.t /\ p.n = e.n /\ Len(p.r) = e.n
                          /\ \A k \in 1..Len(g.r) : p.r[k] = g.r[k]
      ELSE p.n = Len(g.r) /\ Observed(p) = g
(* the text: a header and one row per particle, each value under its name *)
Col(kind, s, k, name) == CASE name = "time" -> s.t
                            [] name = "id"   -> s.r[k].id
                            [] OTHER -> LET c == CHOOSE c \in 1..10 : Names[kind][c] = name IN s.r[k].v[c]
AllNames(kind) == {"time", "id"} \cup {Names[kind][c] : c \in {c \in 1..10 : Names[kind][c] # ""}}
Table(kind, s, tab) == /\ {tab.names[c] : c \in 1..Len(tab.names)} = AllNames(kind)
                       /\ \A c, d \in 1..Len(tab.names) : c # d => tab.names[c] # tab.names[d]
                       /\ Len(tab.rows) = Len(s.r)
                       /\ tab.nl = 1
                       /\ \A k \in 1..Len(tab.rows) : /\ Len(tab.rows[k]) = Len(tab.names)
                                                      /\ \A c \in 1..Len(tab.names) : tab.rows[k][c] = Col(kind, s, k, tab.names[c])
Step(kind, st, e) == /\ Store(kind, st[e.x], st[e.y], e, e.st[e.x])
                     /\ \A z \in {1, 2} \ {e.x} : e.st[z].n = Len(st[z].r) /\ Observed(e.st[z]) = st[z]
                     /\ e.op = "reserve" => e.ret = 1
                     /\ e.op = "aos" => e.aos = [k \in 1..Len(st[e.x].r) |-> st[e.x].r[k].v]
                     /\ e.op = "aos" => e.txt = e.aos                                  \* printed and read again
                     /\ e.op = "print" => Table(kind, st[e.x], e.tab)
=============================================================================
