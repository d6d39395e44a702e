% key: typed-equality-variable
% options: 
% fails: RES : VALID
tff(s_t, type, s: $tType).
tff(col_t, type, col: $tType).
tff(cc_d, type, cc: s).
tff(ca_d, type, ca: col).
tff(cb_d, type, cb: col).
tff(p_d, type, p: col > $o).
tff(a1, axiom, ! [Z: s] : cc = Z).
tff(a2, axiom, p(ca)).
tff(c, conjecture, p(cb)).
