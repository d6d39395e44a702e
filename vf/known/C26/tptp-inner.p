% key: export-gs3-inner
% options: -completeness -preinner -otptp -l 3 -one_step
fof(ax0, axiom, (? [X] : ((! [U] : ((? [V] : ((~ (p(U)) & r(U,V))))))))).
fof(ax1, axiom, (? [X] : ((! [U] : ((? [V] : ((~ (p(V)) & r(V,U))))))))).
fof(goal, conjecture, (? [X] : (((! [U] : ((? [V] : ((~ (p(U)) & r(U,V)))))) & (! [U] : ((? [V] : ((~ (p(V)) & r(V,U)))))))))).
