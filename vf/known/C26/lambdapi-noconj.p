% key: export-lambdapi
% options: -olp -context
fof(ax0, axiom, p(a)).
fof(ax1, axiom, (! [X] : (~ (p(X))))).
