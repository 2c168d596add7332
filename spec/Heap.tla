-------------------------------- MODULE Heap --------------------------------
(* Objects of the library and the operations between them (C15). Every      *)
(* operation makes a new object with storage of its own out of old ones,    *)
(* which it leaves as they are; only writing into an object changes it.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS None
Range(s) == {s[i] : i \in 1..Len(s)}
Clause(name, ok) == IF ok THEN {} ELSE {name}

\* kinds: len ang dur jd (quantities), unit, gcrs vel itrs vitrs wgs azel lvlh
\* (frames), att, loc, sat, time, arr (plain data), coll (windows), txt (text)
Op(n, a, o) == [n |-> n, a |-> a, o |-> o]
Frames == {"gcrs", "itrs", "wgs", "azel", "att"}
Ops ==
    {Op("q_to", <<k>>, "arr") : k \in {"len", "ang", "dur"}}
    \cup {Op("q_same", <<k>>, "arr") : k \in {"len", "ang", "dur", "jd"}}
    \cup {Op("q_convert", <<k>>, k) : k \in {"len", "ang", "dur"}}
    \cup {Op(n, <<k, k>>, k) : k \in {"len", "ang", "dur"}, n \in {"q_add", "q_sub"}}
    \cup {Op(n, <<k>>, k) : k \in {"len", "ang", "dur"}, n \in {"q_neg", "q_addn", "q_nsub", "q_muln"}}
    \cup {Op(n, <<k, k>>, "arr") : k \in {"len", "ang", "dur"}, n \in {"q_eq", "q_ne", "q_lt", "q_le", "q_gt", "q_ge"}}
    \cup {Op(n, <<k, j>>, "qty") : k, j \in {"len", "ang", "dur"}, n \in {"q_mul", "q_div"}}
    \cup {Op("q_ndiv", <<k>>, "qty") : k \in {"len", "ang", "dur"}}
    \cup {Op("q_si", <<"qty">>, "arr"), Op("q_str", <<"qty">>, "txt"), Op("q_squared", <<"qty">>, "qty")}
    \cup {Op(n, <<"unit", "unit">>, "unit") : n \in {"u_mul", "u_div"}}
    \cup {Op(n, <<"unit">>, "unit") : n \in {"u_pow", "u_inv", "u_num"}}
    \cup {Op("u_text", <<"unit">>, "txt")}
    \cup {Op("to_numpy", <<k>>, "arr") : k \in {"gcrs", "vel", "itrs", "vitrs", "azel", "att"}}
    \cup {Op("gcrs_itrs", <<"gcrs">>, "itrs"), Op("gcrs_itrs", <<"vel">>, "vitrs"),
          Op("itrs_gcrs", <<"itrs">>, "gcrs"), Op("itrs_gcrs", <<"vitrs">>, "vel"),
          Op("gcrs_wgs", <<"gcrs">>, "wgs"), Op("itrs_wgs", <<"itrs">>, "wgs"),
          Op("wgs_itrs", <<"wgs">>, "itrs"), Op("wgs_gcrs", <<"wgs">>, "gcrs"),
          Op("gcrs_azel", <<"gcrs", "loc">>, "azel"), Op("itrs_azel", <<"itrs", "loc">>, "azel"),
          Op("wgs_azel", <<"wgs", "loc">>, "azel"), Op("lvlh", <<"gcrs", "vel">>, "lvlh"),
          Op("satellite", <<"gcrs", "vel">>, "sat"), Op("altitude", <<"sat">>, "len"),
          Op("attitude", <<"sat", "loc">>, "att"), Op("distance", <<"sat", "loc">>, "len"),
          Op("look_angle", <<"sat", "loc">>, "ang"), Op("vtws", <<"sat", "loc">>, "coll"),
          Op("schedule", <<"sat", "loc">>, "coll"), Op("loc_itrs", <<"loc">>, "len"),
          Op("loc_radius", <<"loc">>, "len"), Op("loc_text", <<"loc">>, "txt"),
          Op("matrices", <<"jd">>, "arr"), Op("calendar", <<"jd">>, "arr"), Op("day_of_year", <<"jd">>, "arr")}
    \cup {Op(n, <<"jd">>, "qty") : n \in {"rotation_angle", "nutation_angles", "nutation", "precession", "obliquity",
              "true_obliquity", "equation_of_time", "equation_of_equinoxes", "sun_right_ascension"}}
    \cup {Op(n, <<"time", "lon">>, "qty") : n \in {"true_solar", "mean_solar", "true_hour", "mean_hour", "lmst", "last"}}
    \cup {Op(n, <<"time">>, "qty") : n \in {"gmst", "gast", "ut1"}}
    \cup {Op("datetime", <<"time">>, "arr")}
    \cup {Op("save", <<k>>, "txt") : k \in Frames \cup {"sat", "coll"}}
    \cup {Op("index", <<"coll">>, "txt")}
\* the objects a history starts from
Start == <<"len", "len", "ang", "ang", "dur", "unit", "unit", "jd", "gcrs", "vel", "itrs", "wgs", "loc", "loc", "time", "lon", "coll">>
\* objects with storage one can write into
Writable(k) == k \notin {"txt", "loc", "unit"}

\* ---- one step of a recorded history against the states before it
\* digests: what every object looks like, memo: results of earlier calls
StepClauses(kinds, digests, memo, e) ==
    LET n == Len(digests)
        kept == \A i \in 1..n : (e.op = "write" /\ e.obj = i) \/ e.digests[i] = digests[i] IN
    IF e.op = "write"
    THEN Clause("C15.no_alias", kept)
    ELSE Clause("C15.inputs", kept)
         \cup Clause("C15.defined", e.err = "")
         \cup Clause("C15.repeatable",
                     LET key == <<e.op, e.args, [i \in 1..Len(e.args) |-> digests[e.args[i]]]>> IN
                     key \in DOMAIN memo => memo[key] = e.result)
MemoAfter(digests, memo, e) ==
    IF e.op = "write" THEN memo
    ELSE (<<e.op, e.args, [i \in 1..Len(e.args) |-> digests[e.args[i]]]>> :> e.result) @@ memo
=============================================================================
