------------------------------- MODULE Keys -------------------------------
(* The identity of requests: which ones share a cache entry.                *)
EXTENDS Metrics

NameSet(sets) == {sets[i].n : i \in DOMAIN sets}

\* The label maps of the values of one metric, in order, for each of its sets.
\* A value without labels does not count.
LabelsOf(sets, n) ==
  FoldLeft(LAMBDA acc, set :
             IF set.n # n THEN acc
             ELSE Append(acc, FoldLeft(LAMBDA ls, v : IF v.l = <<>> THEN ls
                                                      ELSE Append(ls, v.l),
                                       <<>>, set.vs)),
           <<>>, sets)

CheckKey(op) ==
  <<op.name, op.cons, op.l, [n \in NameSet(op.m) |-> LabelsOf(op.m, n)]>>

ReportKey(op) == <<op.cons, op.name, op.l>>

QuotaKey(op) == <<op.method, op.cons, NameSet(op.m)>>
=============================================================================
