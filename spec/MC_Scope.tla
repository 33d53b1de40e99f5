------------------------------- MODULE MC_Scope -------------------------------
EXTENDS Scope
CONSTANTS Vars, Vals, MaxDepth
VARIABLE was    \* values at the time each open scope was opened
Init == ScInit([k \in Vars |-> 0]) /\ was = <<>>
Next == \/ \E k \in Vars : \E x \in Vals :
             \/ Set(k, x) /\ UNCHANGED was
             \/ Len(open) < MaxDepth /\ Let(k, x) /\ was' = Append(was, val)
        \/ Close /\ was' = SubSeq(was, 1, Len(was) - 1)
Spec == Init /\ [][Next]_<<val, open, was>>
\* Closing a scope restores its variable to what it was before the scope, and leaves the others alone.
Undone == [][Len(open') < Len(open) =>
               LET k == open[Len(open)][1] IN val'[k] = was[Len(was)][k] /\ \A j \in Vars \ {k} : val'[j] = val[j]]_<<val, open, was>>
\* If nothing was set outside of scopes since, the outermost close of a variable brings back its first value.
Depth == Len(was) = Len(open) /\ \A i \in 1..Len(open) : open[i][2] = was[i][open[i][1]]
=============================================================================
