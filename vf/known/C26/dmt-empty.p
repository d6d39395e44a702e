% key: dmt-empty
% options: -dmt -l 3
fof(ax0, axiom, (! [Y2] : ((u(Y2) <=> (! [X,Y] : (($true & u(g(h(d,Y2,X),d))))))))).
