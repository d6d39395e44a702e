% key: export-lambdapi
% options: -olp -context -l 2 -one_step
fof(goal, conjecture, ((! [X] : ((! [Y] : (p(X))))) => (! [X] : ((! [Y] : (p(X))))))).
