% key: sateq-merge
% options: -sateq -l 4 -one_step
fof(ax0, axiom, ~ ((! [W,X] : ((~ (~ (((W = X) => (! [Y] : ((! [Z] : ((Z = W)))))))) => (a != X)))))).
fof(goal, conjecture, ~ ((! [W,X] : ((~ (~ (((W = X) => (! [Y] : ((! [Z] : ((W = Z)))))))) => (X != a)))))).
