% key: shadowed-type-variable
% options: -l 1 -one_step
% fails: \[typing\] Variable Y\d* is either not in the context
tff(s, type, s: $tType).
tff(ax0, axiom, (! [B: $tType, Y: B] : ((! [B: $tType] : ((Y = Y)))))).
