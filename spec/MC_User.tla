------------------------------ MODULE MC_User -------------------------------
(* All short histories of definitions and builds, from a few definitions.     *)
EXTENDS User

CONSTANT Depth
VARIABLES hist
mvars == <<defs, used, hist>>

D(name, key, rng) == [name |-> name, key |-> key, rng |-> rng, def |-> <<>>, row |-> Families.userdef]
Alphabet == << D("A", <<"M", 1010>>, <<>>), D("B", <<"M", 1020>>, <<>>), D("C", <<"M", 1010>>, <<>>),
               D("D", <<>>, <<"M", 1000, 1490>>), D("E", <<"M", 30>>, <<>>), D("F", <<>>, <<"M", 20, 40>>),
               D("G", <<"G", 60>>, <<>>), D("H", <<>>, <<"G", 50, 70>>) >>
Asked == << <<"M",1010>>, <<"M",1020>>, <<"M",1030>>, <<"M",30>>, <<"M", 35>>, <<"M",25>>, <<"G",60>>, <<"G",65>>, <<"G",50>>,
            <<"G",0>>, <<"M",1500>>, <<"F",1000>>, <<"X",1000>>, <<"M",20>>, <<"M",1000>>, <<"M",1490>> >>
NameIn(w) == LET k == DefOf(used, w) IN IF k # 0 THEN used[k].name ELSE IF LibIsCode(w) THEN "lib" ELSE ""

Init == defs = <<>> /\ used = <<>> /\ hist = <<>>
Define == \E d \in DOMAIN Alphabet :
            /\ \A k \in DOMAIN defs : defs[k].name # Alphabet[d].name
            /\ defs' = Append(defs, Alphabet[d]) /\ hist' = Append(hist, d) /\ UNCHANGED used
Build == /\ hist # <<>> /\ hist[Len(hist)] # 0
         /\ used' = IF Ambiguous(defs) THEN used ELSE defs
         /\ hist' = Append(hist, 0) /\ UNCHANGED defs
\* (ambiguous tables are the end)
Next == Len(hist) < Depth /\ ~(Ambiguous(defs) /\ hist[Len(hist)] = 0) /\ (Define \/ Build)

\* What's in use was unambiguous when built, and is the beginning of what is defined
InUse == ~Ambiguous(used) /\ used = SubSeq(defs, 1, Len(used))
\* A word means one thing only; the library's own names keep their meaning
OneMeaning == \A w \in ToSet(Asked) :
                 /\ Cardinality(Keyed(used, w)) <= 1
                 /\ Tabled(w) => NameIn(w) = "lib"
\* Nothing the user defined can be lost
AllFound == \A k \in DOMAIN used : used[k].key # <<>> => NameIn(used[k].key) = used[k].name
\* Building again changes nothing
Stable == (hist # <<>> /\ hist[Len(hist)] = 0 /\ ~Ambiguous(defs)) => used = defs

Fields == [k \in DOMAIN Alphabet |-> <<Alphabet[k].name, Alphabet[k].key, Alphabet[k].rng>>]
Emit == IF hist = <<>> THEN PrintT("ALPHA|" \o ToString(Fields) \o "|" \o ToString(Asked))
        ELSE PrintT("CASE|" \o ToString(hist) \o "|" \o
                    (IF hist[Len(hist)] = 0 /\ Ambiguous(defs) THEN "dup"
                     ELSE IF hist[Len(hist)] = 0 THEN ToString([k \in DOMAIN Asked |-> NameIn(Asked[k])])
                     ELSE ""))
=============================================================================
