------------------------------ MODULE OsFileMC ------------------------------
(* Every history of two handles and two spans over three paths (a file, an empty file, no file), with every OS call
   refused at every point.  Next to it the calls of the implementation over a small operating system (live file handles,
   mapping objects, views): handles, mappings and views never outlive the user's handle or span, and the results agree. *)
EXTENDS OsFile, TLC, Json
VARIABLES op, live, maps, views        \* OS side: live file handles and views per file, live mapping objects
vars == <<Files, H, V, op, live, maps, views>>
Sl == {1, 2}
Init == /\ Files = <<<<1, 2, 3, 4, 5>>, <<>>, <<-1>>>> /\ H = [k \in Slots |-> 0] /\ V = [k \in Slots |-> 0] /\ op = <<"init">>
        /\ live = [n \in 1..3 |-> 0] /\ maps = 0 /\ views = [n \in 1..3 |-> 0]
Inc(f, n) == IF n = 0 THEN f ELSE [f EXCEPT ![n] = @ + 1]
Dec(f, n) == IF n = 0 THEN f ELSE [f EXCEPT ![n] = @ - 1]
\* CreateFile: the file behind the handle, 0 when it is invalid
AOpen(n, no) == IF Exists(n) /\ no # "create" THEN n ELSE 0
\* GetFileSize, CreateFileMapping (which refuses an empty file), MapViewOfFile, CloseHandle: <<ok, mapping objects made, closed>>
AMap(n, no) == IF n = 0 \/ no = "size" THEN <<FALSE, 0, 0>>
               ELSE IF Files[n] = <<>> \/ no = "mapping" THEN <<FALSE, 0, 0>>
               ELSE <<no # "view", 1, 1>>
Next ==
  \E k \in Sl :
    \/ \E n \in 1..3, no \in {"none", "create"} : \E r \in {AOpen(n, no) # 0} :
         /\ op' = <<"open", k, n, no>> /\ OpenF(k, n, no, r) /\ live' = Inc(live, AOpen(n, no)) /\ UNCHANGED <<maps, views>>
    \/ \E no \in {"none", "close"} : \E r \in {H[k] # 0 /\ no # "close"} :
         /\ op' = <<"close", k, no>> /\ CloseF(k, no, r) /\ live' = Dec(live, H[k]) /\ UNCHANGED <<maps, views>>
    \/ \E h \in Sl, no \in {"none", "size", "mapping", "view"} : \E a \in {AMap(H[h], no)} :
         /\ op' = <<"map", k, h, no>> /\ MapF(k, h, no, a[1]) /\ maps' = maps + a[2] - a[3]
         /\ views' = (IF a[1] THEN Inc(views, H[h]) ELSE views) /\ UNCHANGED live
    \/ \E n \in 1..3, no \in {"none", "create", "size", "mapping", "view", "close"}, o \in {"mapp", "typed"} : \E f \in {AOpen(n, no)} : \E a \in {AMap(f, no)} :
         /\ op' = <<o, k, n, no>> /\ MapP(k, n, no, a[1]) /\ maps' = maps + a[2] - a[3]
         /\ views' = (IF a[1] THEN Inc(views, f) ELSE views) /\ live' = Dec(Inc(live, f), f)
    \/ \E r \in {V[k] # 0} :
         /\ op' = <<"unmap", k>> /\ Unmap(k, r) /\ views' = Dec(views, V[k]) /\ UNCHANGED <<live, maps>>
Owned == (\A n \in 1..3 : live[n] = Count(H, n) /\ views[n] = Count(V, n)) /\ maps = 0
View == <<H, V, live, maps, views>>
Emit == PrintT("@T " \o ToJson([f |-> ToString(View), o |-> op', t |-> ToString(View'), i |-> op = <<"init">>]))
=============================================================================
