% key: type-skolem-dependence
% options: 
% fails: RES : VALID
tff(s, type, s: $tType).
tff(r, type, r: !>[A: $tType]: (s > $o)).
tff(a, axiom, ! [A: $tType] : ? [X: s] : r(A, X)).
tff(c, conjecture, ? [X: s] : (! [A: $tType] : r(A, X))).
