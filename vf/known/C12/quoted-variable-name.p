% key: quoted-variable-name
% options: -l 1 -one_step
% fails: Expected constant, got X which is a function
fof(a, axiom, ! [X] : p('X'(X))).
