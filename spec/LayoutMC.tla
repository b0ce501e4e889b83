------------------------------ MODULE LayoutMC ------------------------------
(* Bounded model: every short history of sizes, paddings, themes, specifications and layouts of one view; source of behaviours. *)
EXTENDS Layout, Json, CSV, IOUtils
CONSTANTS MaxRuns, MaxOps, Emit
VARIABLES st, hist, n, m
T(t, v) == [t |-> t, v |-> v]
It(pos, pad, al, ord) == [pos |-> pos, pad |-> pad, align |-> al, order |-> ord]
Z == <<0, 0, 0, 0>>
KidR(i, lay, rects) == [id |-> i, lay |-> lay, rects |-> rects, sub |-> <<>>]
Rel(mw, upd) == [d |-> "rel", mw |-> mw, mh |-> <<>>, upd |-> upd]
Grid(c) == [d |-> "grid", rows |-> <<T("n", 40), T("auto", 0)>>, cols |-> c, rg |-> 4, cg |-> 2, upd |-> FALSE]
G1(upd) == [clip |-> TRUE, size |-> <<>>, lay |-> Rel(<<>>, upd), kids |-> <<KidR("a", It("left", Z, "middle", <<>>), <<<<0, 10, 30, 20>>>>), KidR("b", It("top", <<2, 4, 6, 8>>, "", <<>>), <<<<-20, 0, 40, 16>>>>), KidR("c", It("content", Z, "", <<>>), <<<<0, 0, 8, 8>>>>)>>]
G2 == [clip |-> TRUE, size |-> <<>>, lay |-> Grid(<<T("p", 50), T("auto", 0), T("auto", 0)>>), kids |-> <<KidR("a", [rs |-> <<1>>, re |-> <<2>>, cs |-> <<1>>, ce |-> <<2>>], <<<<0, 0, 10, 10>>>>), KidR("b", [rs |-> <<2>>, re |-> <<>>, cs |-> <<2>>, ce |-> <<3>>], <<<<0, 0, 10, 10>>>>)>>]
G3 == [clip |-> FALSE, size |-> <<200, 100>>, lay |-> Rel(<<"p", 10>>, TRUE), kids |-> <<KidR("a", It("outside", <<1, 2, 3, 4>>, "", <<>>), <<<<-10, 0, 30, 20>>>>), KidR("b", It("right", Z, "", <<2>>), <<<<0, 0, 60, 10>>>>), KidR("c", It("right", Z, "bottom", <<1>>), <<<<0, 0, 10, 10>>>>)>>]
Sp(w, pad, th, g) == [w |-> w, h |-> <<>>, pad |-> pad, theme |-> th, g |-> g]
Specs == {Sp(<<>>, <<>>, <<>>, G1(TRUE)), Sp(<<300>>, <<<<10, 20, 30, 40>>>>, <<>>, G1(TRUE)), Sp(<<>>, <<>>, <<<<Z>>>>, G2), Sp(<<>>, <<>>, <<<<>>>>, G3), Sp(<<>>, <<>>, <<>>, <<>>), Sp(<<260>>, <<>>, <<>>, G1(FALSE))}
Cfgs == {[opts |-> [w |-> 240, h |-> 160, pad |-> p]] : p \in {<<>>, <<Z>>}}
Ops == {[op |-> "spec", spec |-> s] : s \in Specs}
   \cup {[op |-> "w", v |-> 280], [op |-> "vh", v |-> 150], [op |-> "pad", p |-> <<6, 0, 0, 12>>], [op |-> "theme", theme |-> <<<<>>>>], [op |-> "ctheme", theme |-> <<<<<<1, 2, 3, 4>>>>>>, render |-> FALSE],
         [op |-> "resize", w |-> 321, h |-> 211, render |-> TRUE], [op |-> "resize", w |-> 323, h |-> 161, render |-> FALSE], [op |-> "tag"], [op |-> "run", reuse |-> FALSE]}
   \cup (IF st.g = <<>> THEN {} ELSE
         {[op |-> "rects", id |-> "a", rects |-> <<<<-30, 4, 50, 50>>>>]}
         \cup (IF st.g.lay.d = "rel" THEN {[op |-> "item", id |-> "b", lay |-> It("bottom", Z, "right", <<>>)], [op |-> "add", kid |-> KidR("z", It("right", <<0, 0, 0, 10>>, "top", <<0>>), <<<<0, -10, 20, 20>>>>)], [op |-> "cont", lay |-> Rel(<<"n", 20>>, TRUE)]} ELSE {})
         \cup (IF st.g.clip THEN {[op |-> "rm", id |-> "a"]} ELSE {}))
Init == \E c \in Cfgs, s \in Specs : /\ st = LayoutStep(Layout0(c), [op |-> "spec", spec |-> s])
                                     /\ hist = <<[op |-> "reset", cfg |-> c], [op |-> "spec", spec |-> s]>> /\ n = 0 /\ m = 0
Ids == IF st.g = <<>> THEN {} ELSE {kid.id : kid \in Range(st.g.kids)}
Ok(e) == /\ e.op \in {"rects", "item", "rm"} => e.id \in Ids
         /\ e.op = "add" => "z" \notin Ids
         /\ e.op = "spec" => n > 0
         /\ (e.op = "resize" /\ ~e.render) => m = 0
Next == /\ n < MaxRuns
        /\ \E e \in Ops : /\ Ok(e)
                          /\ IF e.op = "run" THEN n' = n + 1 /\ m' = 0 ELSE m < MaxOps /\ m' = m + 1 /\ n' = n /\ LayoutStep(st, e) # st
                          /\ st' = LayoutStep(st, e)
                          /\ hist' = IF Emit THEN Append(hist, e) ELSE <<e>>
Spec == Init /\ [][Next]_<<st, hist, n, m>>
Last == hist[Len(hist)].op
(* after a run everything shown belongs to the current settings *)
Settled == Last = "run" => /\ st.vb = <<Viewport(st.w, st.h, st.pad)>> /\ st.root = <<st.w, st.h>> /\ st.canvas = <<st.w, st.h>> /\ ~st.lay
                           /\ Run(st) = st
(* children at one side lie next to each other, away from the content *)
Apart(a, b) == a[1] >= b[3] \/ b[1] >= a[3] \/ a[2] >= b[4] \/ b[2] >= a[4]
SideKids == IF st.g = <<>> THEN <<>> ELSE Filter(st.g.kids, LAMBDA kid : kid.box # <<>> /\ kid.room # <<>> /\ kid.off # <<>> /\ kid.off[1].p = kid.lay.pos)
Laid == n > 0 /\ Last = "run" =>
   \A i, j \in 1..Len(SideKids) : (SideKids[i].room = SideKids[j].room /\ Sane(SideKids[i].room)) =>
       /\ Apart(SideKids[i].box[1], SideKids[i].room[1])
       /\ i # j /\ SideKids[i].lay.pos = SideKids[j].lay.pos => Apart(SideKids[i].box[1], SideKids[j].box[1])
Inv == LayoutInv(st) /\ Settled /\ Laid
View == <<st, n, m, Last>>
EmitAll == (n' = MaxRuns /\ n' > n) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
==============================================================================
