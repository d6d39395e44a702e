% key: export-dmt
% options: -dmt -osctptp -l 3 -one_step
fof(ax0, axiom, (p & ~ (q))).
fof(ax1, axiom, (q => p)).
fof(ax2, axiom, (q <=> (p & r))).
fof(goal, conjecture, ~ (q)).
