------------------------------- MODULE SaveMC -------------------------------
(* Two frames saved at the same time by the same step onto a disk that may run full: each is turned into blocks,
   which pass through a buffer; what the step reports has to agree with what is on the disk in the end.         *)
EXTENDS Save, Json
CONSTANTS Blocks, Emit, Forgets        \* Forgets: the writer does not look at the outcome of emptying its buffer (TRUE must fail)
VARIABLES cfg, disk, buf, pc, room, res
vars == <<cfg, disk, buf, pc, room, res>>
Ids == {0, 7, 12, 1234, 123456}
Plain == [kind |-> "plain", width |-> 0, zero |-> FALSE]
Nums == {Plain, [kind |-> "none", width |-> 0, zero |-> FALSE], [kind |-> "padded", width |-> 4, zero |-> TRUE], [kind |-> "padded", width |-> 3, zero |-> FALSE], [kind |-> "padded", width |-> 10, zero |-> TRUE]}
Pat(num, ext, style) == [pre |-> "out", num |-> num, post |-> "x", ext |-> ext, style |-> style]
Dims == {<<5, 4>>, <<5, 4, 3>>, <<5, 4, 2>>, <<20>>}
Good == {<<5, 4>>, <<5, 4, 3>>}
Common == {"fits", "fitsgz", "tif", "jpg"}
C(p, d, m, g, f, ids) == [p |-> p, dims |-> d, mode |-> m, ga |-> g[1], gb |-> g[2], fault |-> f, ids |-> ids]
G1 == <<1, 1>>
Configs ==
        {C(Pat(Plain, e, s), d, 0, G1, "", <<3, 4>>) : e \in Exts, s \in DOMAIN Spelling, d \in Dims}
   \cup {C(Pat(Plain, e, "lower"), d, m, g, "", <<3, 4>>) : e \in {"fits", "tif", "jpg"}, d \in Good, m \in 0..4, g \in {G1, <<2, 1>>, <<1, 2>>, <<3, 1>>, <<0, 1>>, <<-1, 1>>}}
   \cup {C(Pat(n, e, "lower"), d, 1, G1, "", <<i, j>>) : n \in Nums, e \in Common, d \in Good, i \in Ids, j \in Ids}
   \cup {C(Pat(Plain, e, "lower"), d, 0, G1, f, <<3, 4>>) : e \in Common, d \in Good, f \in {"dir", "nodir", "full", "cut0", "cut1", "cut2", "cut3", "cut4"}}
Frames == {1, 2}
NameOf(i) == Name(cfg.p, cfg.ids[i])
Possible(i) == Writable(cfg.p, cfg.dims, cfg.mode, cfg.ga, cfg.gb)
Init == /\ cfg \in {c \in Configs : c.ids[1] # c.ids[2]}
        /\ disk = << >>                                  \* file name -> blocks written, each by a frame
        /\ buf = [i \in Frames |-> 0] /\ pc = [i \in Frames |-> "open"] /\ res = [i \in Frames |-> ""]
        /\ room = CASE cfg.fault \in {"full", "cut0"} -> 0 [] cfg.fault = "cut1" -> 1 [] cfg.fault \in {"cut2", "cut3"} -> Blocks [] cfg.fault = "cut4" -> 2 * Blocks - 1 [] OTHER -> 2 * Blocks
Other(i) == 3 - i
\* frames which share a file are saved one after the other, which is up to the user
MayStart(i) == NameOf(1) # NameOf(2) \/ pc[Other(i)] = "done" \/ i = 1
Finish(i, r) == pc' = [pc EXCEPT ![i] = "done"] /\ res' = [res EXCEPT ![i] = r]
Open(i) == /\ pc[i] = "open" /\ MayStart(i)
           /\ IF ~Possible(i) /\ ~Free(cfg.p, cfg.mode, cfg.ga, cfg.gb) THEN Finish(i, "error") /\ UNCHANGED disk
              ELSE IF cfg.fault \in {"dir", "nodir"} THEN Finish(i, "error") /\ UNCHANGED disk
              ELSE pc' = [pc EXCEPT ![i] = "write"] /\ disk' = (NameOf(i) :> << >>) @@ disk /\ UNCHANGED res
           /\ UNCHANGED <<cfg, buf, room>>
\* a block goes into the buffer; a full buffer is emptied onto the disk first
Flush(i, n) == IF room >= n THEN disk' = [disk EXCEPT ![NameOf(i)] = @ \o [k \in 1..n |-> i]] /\ room' = room - n
               ELSE disk' = [disk EXCEPT ![NameOf(i)] = @ \o [k \in 1..room |-> i]] /\ room' = 0
Written(i) == Len(disk[NameOf(i)]) + buf[i]
Write(i) == /\ pc[i] = "write" /\ Written(i) < Blocks
            /\ IF buf[i] = 0 THEN buf' = [buf EXCEPT ![i] = 1] /\ UNCHANGED <<disk, room, pc, res>>
               ELSE /\ Flush(i, buf[i]) /\ buf' = [buf EXCEPT ![i] = 0]
                    /\ IF room < buf[i] THEN Finish(i, "error") ELSE UNCHANGED <<pc, res>>
            /\ UNCHANGED cfg
Close(i) == /\ pc[i] = "write" /\ Written(i) = Blocks
            /\ Flush(i, buf[i]) /\ buf' = [buf EXCEPT ![i] = 0]
            /\ Finish(i, IF room < buf[i] /\ ~Forgets THEN "error" ELSE "ok") /\ UNCHANGED cfg
Next == \E i \in Frames : Open(i) \/ Write(i) \/ Close(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == \A i \in Frames : pc[i] = "done"
\* success means that the whole frame is in its file, unless a later frame was sent to the same one
Complete == \A i \in Frames : res[i] = "ok" /\ (NameOf(1) # NameOf(2) \/ i = 2) => NameOf(i) \in DOMAIN disk /\ disk[NameOf(i)] = [k \in 1..Blocks |-> i]
\* what cannot be written leaves no file behind
Nothing == ~Possible(1) /\ ~Free(cfg.p, cfg.mode, cfg.ga, cfg.gb) => disk = << >> /\ \A i \in Frames : res[i] # "ok"
\* a placeholder keeps frames apart, and every name keeps the suffix of the pattern
Apart == HasNumber(cfg.p) => NameOf(1) # NameOf(2)
OwnFile == HasNumber(cfg.p) /\ Done /\ res[1] = "ok" /\ res[2] = "ok" => Cardinality(DOMAIN disk) = 2
Settled == <>Done
Emitted == (Emit /\ pc = [i \in Frames |-> "open"]) => PrintT("SCEN" \o ToJson([c |-> cfg, suffix |-> Spelling[cfg.p.style][cfg.p.ext]]))
=============================================================================
