% key: export-gs3-inner
% options: -preinner -l 4 -one_step -orocq -context
fof(ax0, axiom, (? [X] : ((! [U] : ((? [V] : ((~ (p(V)) <=> ~ (p(X)))))))))).
fof(ax1, axiom, (? [X] : ((! [U] : ((? [V] : ((~ (p(X)) <=> ~ (p(V)))))))))).
fof(goal, conjecture, (? [X] : (((! [U] : ((? [V] : ((~ (p(V)) <=> ~ (p(X))))))) & (! [U] : ((? [V] : ((~ (p(X)) <=> ~ (p(V))))))))))).
