------------------------------- MODULE System -------------------------------
(* The key store a user of the library builds up: objects made from seeds or *)
(* imports, extended by derivation, neutering, cloning and re-import of      *)
(* exported text.  Objects are immutable values; every operation is the one  *)
(* defined in KMS.  Each object carries, as a ghost, where it came from      *)
(* (root, steps, after how many steps it was neutered), against which the    *)
(* invariants compare it.                                                    *)
EXTENDS KMS, TLC, Json

CONSTANTS Roots,        \* root objects: results of Master or imported keys
          Indices,      \* child numbers tried
          MaxObjs       \* how many objects the store may hold

VARIABLES objs,         \* sequence of [x |-> object, root, path, neutered]
          hist          \* the calls made so far, as a script
vars == <<objs, hist>>

NotYet == 99
Ghost(x, root, path, neutered) == [x |-> x, root |-> root, path |-> path, neutered |-> neutered]

Init == \E r \in DOMAIN Roots :
          /\ objs = <<Ghost(Roots[r], r, <<>>, IF Roots[r].kind = "pub" THEN 0 ELSE NotYet)>>
          /\ hist = <<[op |-> "root", root |-> r, tag |-> "ok"]>>

\* a call on object h that yields r; a new object appears exactly when it succeeds
Call(step, g, r, path, neutered) ==
  /\ hist' = Append(hist, step @@ [tag |-> IF IsOk(r) THEN "ok" ELSE "err"])
  /\ objs' = IF IsOk(r) THEN Append(objs, Ghost(Val(r), g.root, path, neutered)) ELSE objs

Derive(h, cn) == LET g == objs[h] IN
  Call([op |-> "ckd", h |-> h, cn |-> cn], g, Ckd(g.x, cn), Append(g.path, cn), g.neutered)
DerivePath(h, p) == LET g == objs[h] IN
  Call([op |-> "path", h |-> h, path |-> p], g, CkdPath(g.x, p), g.path \o p, g.neutered)
MakePublic(h) == LET g == objs[h] IN
  /\ g.x.kind = "prv"
  /\ Call([op |-> "neuter", h |-> h], g, {Ok(Neuter(g.x))}, g.path, Len(g.path))
Clone(h) == LET g == objs[h] IN Call([op |-> "clone", h |-> h], g, {Ok(g.x)}, g.path, g.neutered)
Reimport(h, s) == LET g == objs[h]  pre == StdPrefixes[s] IN
  /\ IF g.x.kind = "prv" THEN EndsPrv(pre.chars) ELSE EndsPub(pre.chars)
  /\ LET t == ExportText(pre.ver, g.x)
         r == IF g.x.kind = "prv" THEN ImportPrv(t) ELSE ImportPub(t)
     IN Call([op |-> "reimport", h |-> h, std |-> s], g, r, g.path, g.neutered)

Paths == {<<>>} \cup {<<i, j>> : i \in Indices, j \in Indices}
Next == /\ Len(objs) < MaxObjs
        /\ \E h \in 1..Len(objs) :
             \/ \E i \in Indices : Derive(h, i)
             \/ \E p \in Paths : DerivePath(h, p)
             \/ MakePublic(h)
             \/ Clone(h)
             \/ \E s \in 1..Len(StdPrefixes) : Reimport(h, s)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What must be true of every object in every reachable store.               *)
\* C07: a key is what walking its whole path from the root gives, in one go
AlongPath(g) ==
  LET root == Roots[g.root]
      r == IF root.kind = "pub" THEN CkdPath(root, g.path)
           ELSE LET k == CkdPath(root, g.path) IN IF IsOk(k) /\ g.neutered # NotYet THEN {Ok(Neuter(Val(k)))} ELSE k
  IN r = {Ok(g.x)}
Composition == \A h \in 1..Len(objs) : AlongPath(objs[h])

\* C06: public derivation is the image of private derivation, errors included
Images(x) == \A i \in Indices :
  LET prv == CkdPrv(x, i)  pub == CkdPub(Neuter(x), i) IN
  IF Hardened(i) THEN ~IsOk(pub)
  ELSE /\ IsOk(prv) = IsOk(pub)
       /\ IsOk(prv) => Val(pub) = Neuter(Val(prv))
       /\ ~IsOk(prv) => prv = pub
Commutation == \A h \in 1..Len(objs) : objs[h].x.kind = "prv" => Images(objs[h].x)
\* C06: nothing public ever lies below a hardened step taken after neutering
Barrier == \A h \in 1..Len(objs) : LET g == objs[h] IN
  /\ (g.x.kind = "pub") = (g.neutered # NotYet)
  /\ g.neutered # NotYet => \A i \in 1..Len(g.path) : i > g.neutered => ~Hardened(g.path[i])

\* C08: depth counts steps, never beyond the cap; child number and fingerprint name the step and the parent
Lineage == \A h \in 1..Len(objs) : LET g == objs[h]  root == Roots[g.root]  n == Len(g.path) IN
  /\ g.x.depth = root.depth + n /\ g.x.depth <= MaxDepth
  /\ n = 0 => g.x.fp = root.fp /\ g.x.cn = root.cn
  /\ n > 0 => LET par == CkdPath(root, Take(g.path, n - 1)) IN
              /\ g.x.cn = g.path[n]
              /\ IsOk(par) /\ g.x.fp = Fingerprint(IF Val(par).kind = "prv" THEN PtOf(Val(par).key) ELSE Val(par).key)

\* C05, C13: keys in the store are always valid
ValidKeys == \A h \in 1..Len(objs) : LET x == objs[h].x IN
  IF x.kind = "prv" THEN ScOk(x.key) ELSE PtOk(x.key)

\* C10, C12: text and content determine each other
Texts == \A h \in 1..Len(objs) : \A s \in 1..Len(StdPrefixes) :
  LET x == objs[h].x  pre == StdPrefixes[s]  t == ExportText(pre.ver, x)
      mine == IF x.kind = "prv" THEN EndsPrv(pre.chars) ELSE EndsPub(pre.chars) IN
  /\ Take(t, 4) = pre.chars
  /\ mine => (IF x.kind = "prv" THEN ImportPrv(t) ELSE ImportPub(t)) = {Ok(x)}
  /\ ~IsOk(IF x.kind = "prv" THEN ImportPub(t) ELSE ImportPrv(t))
  /\ ~mine => ~IsOk(IF x.kind = "prv" THEN ImportPrv(t) ELSE ImportPub(t))
SameText == \A h \in 1..Len(objs), k \in 1..Len(objs) :
  LET x == objs[h].x  y == objs[k].x  v == StdPrefixes[1].ver IN
  /\ (ExportText(v, x) = ExportText(v, y)) = (KeyField(x) = KeyField(y) /\ x.chain = y.chain /\ x.depth = y.depth /\ x.fp = y.fp /\ x.cn = y.cn)
  /\ KeyEq(x, y) => \A i \in Indices : Ckd(x, i) = Ckd(y, i)
\* C11: one damaged byte anywhere is always noticed
Tamper == \A h \in 1..Len(objs) : LET x == objs[h].x
                                      s == IF x.kind = "prv" THEN 1 ELSE 2
                                      t == ExportText(StdPrefixes[s].ver, x) IN
  \A p \in 1..Len(t) : \A d \in {1, 2, 100} :
     LET u == [t EXCEPT ![p] = (@ + d) % 200] IN ~IsOk(ImportPrv(u)) /\ ~IsOk(ImportPub(u))

\* C19: objects never change, and the store only grows
Immutable == [][\A h \in 1..Len(objs) : h <= Len(objs') /\ objs'[h] = objs[h]]_vars
\* hist is what was done, not part of the state
View == objs
Emit == PrintT("BEHAVIOUR " \o ToJson(hist'))
=============================================================================
