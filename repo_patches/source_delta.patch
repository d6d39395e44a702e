From 4007f22fef18dd2d3422b224fc8e0341f520d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 01/57] fix: only agree on a substitution returned by every
 child of a beta node

With three children or more, a substitution shared by two of them was passed
to the parent even when another child needed a different one, closing
branches that are open.
---
 src/Search/destructive.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Search/destructive.go b/src/Search/destructive.go
index 1ef43a2..c15d6d8 100644
--- a/src/Search/destructive.go
+++ b/src/Search/destructive.go
@@ -776,15 +776,20 @@ func (ds *destructiveSearch) selectChildren(father Communication, children *[]Co
 						// Children sent the same substitution, eventually with new forms
 						new_current_subst = current_subst.AddFormulas(res.subst_list_for_father[0].GetForm())
 					} else {
-						// Reset at each step
+						// A substitution is common iff it is returned by all the children that need one:
+						// at each step, only keep the ones this child agrees on.
+						previous_common_substs := common_substs
+						if cpt_children_returning_subst == 1 {
+							previous_common_substs = result_subst
+						}
 						common_substs = []Core.SubstAndForm{}
 
 						// Check if there is common substitutions
 						for _, current_subst_from_children := range res.subst_list_for_father {
-							for i := range result_subst {
+							for i := range previous_common_substs {
 								if Lib.ListEquals(
 									current_subst_from_children.GetSubst(),
-									result_subst[i].GetSubst(),
+									previous_common_substs[i].GetSubst(),
 								) {
 									debug(
 										Lib.MkLazy(func() string {
@@ -794,7 +799,7 @@ func (ds *destructiveSearch) selectChildren(father Communication, children *[]Co
 											)
 										}),
 									)
-									common_substs = append(common_substs, result_subst[i].AddFormulas(current_subst_from_children.GetForm()))
+									common_substs = append(common_substs, previous_common_substs[i].AddFormulas(current_subst_from_children.GetForm()))
 								}
 							}
 						}
-- 
2.43.0


From 336733281068d3f2fc45e2e2af9fce51dac7934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 02/57] fix: read equalities on the stored predicates rather
 than on the unifier

The substitution returned by the code tree may bind the metavariables of the
stored predicate instead of the ones of the query (e.g., with X = X): the
prover then either aborted or reasoned on an equality with a fresh variable.
---
 src/Mods/equality/bse/equality_types.go | 88 +++++++------------------
 1 file changed, 22 insertions(+), 66 deletions(-)

diff --git a/src/Mods/equality/bse/equality_types.go b/src/Mods/equality/bse/equality_types.go
index 482e272..d253460 100644
--- a/src/Mods/equality/bse/equality_types.go
+++ b/src/Mods/equality/bse/equality_types.go
@@ -41,7 +41,6 @@ import (
 
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Core"
-	"github.com/GoelandProver/Goeland/Glob"
 	"github.com/GoelandProver/Goeland/Lib"
 	"github.com/GoelandProver/Goeland/Mods/equality/eqStruct"
 	"github.com/GoelandProver/Goeland/Unif"
@@ -119,82 +118,39 @@ func (equs Equalities) removeHalf() Equalities {
 
 /* Retrieve equalities from a datastructure */
 func retrieveEqualities(dt Unif.DataStructure) Equalities {
-	res := Equalities{}
-	meta_ty := AST.MkTyMeta("META_TY_EQ", -1)
-	MetaEQ1 := AST.MakerMeta("METAEQ1", -1, meta_ty)
-	MetaEQ2 := AST.MakerMeta("METAEQ2", -1, meta_ty)
+	return retrieveEqPairs(dt, "METAEQ1", "METAEQ2", "META_TY_EQ")
+}
+
+/* Retrieve inequalities from a datastructure */
+func retrieveInequalities(dt Unif.DataStructure) Inequalities {
+	return retrieveEqPairs(dt, "META_NEQ_1", "META_NEQ_2", "META_TY_NEQ")
+}
+
+/**
+ * Retrieve the members of all the equality predicates stored in the datastructure.
+ * The members are read on the stored predicates and not on the substitutions, as the latter may bind
+ * the metavariables of the predicate (e.g., with X = X) instead of the ones of the query.
+ **/
+func retrieveEqPairs(dt Unif.DataStructure, meta1, meta2, metaTy string) []eqStruct.TermPair {
+	res := []eqStruct.TermPair{}
+	meta_ty := AST.MkTyMeta(metaTy, -1)
 
 	eq_pred := AST.MakerPred(AST.Id_eq, Lib.NewList[AST.Ty](), Lib.NewList[AST.Term]())
 	eq_pred = AST.MakePred(
 		eq_pred.GetIndex(),
 		AST.Id_eq,
 		Lib.MkListV[AST.Ty](meta_ty),
-		Lib.MkListV[AST.Term](MetaEQ1, MetaEQ2),
+		Lib.MkListV[AST.Term](
+			AST.MakerMeta(meta1, -1, meta_ty),
+			AST.MakerMeta(meta2, -1, meta_ty),
+		),
 	)
 	_, eq_list := dt.Unify(eq_pred)
 
 	for _, ms := range eq_list {
-		ms_ordered := orderSubstForRetrieve(ms.MatchingSubstitutions().GetSubst(), MetaEQ1, MetaEQ2)
-		eq1_term, ok_t1 := ms_ordered.Get(MetaEQ1)
-		if ok_t1 == -1 {
-			Glob.Anomaly("RI", "Meta_eq_1 not found in map")
-		}
-		eq2_term, ok_t2 := ms_ordered.Get(MetaEQ2)
-		if ok_t2 == -1 {
-			Glob.Anomaly("RI", "Meta_eq_2 not found in map")
-		}
-		res = append(res, eqStruct.MakeTermPair(eq1_term, eq2_term))
-	}
-	return res
-}
-
-/* Retrieve inequalities from a datastructure */
-func retrieveInequalities(dt Unif.DataStructure) Inequalities {
-	res := Inequalities{}
-	meta_ty := AST.MkTyMeta("META_TY_NEQ", -1)
-	MetaNEQ1 := AST.MakerMeta("META_NEQ_1", -1, meta_ty)
-	MetaNEQ2 := AST.MakerMeta("META_NEQ_2", -1, meta_ty)
-
-	neq_pred := AST.MakerPred(AST.Id_eq, Lib.NewList[AST.Ty](), Lib.NewList[AST.Term]())
-	neq_pred = AST.MakePred(
-		neq_pred.GetIndex(),
-		AST.Id_eq,
-		Lib.MkListV(meta_ty),
-		Lib.MkListV[AST.Term](MetaNEQ1, MetaNEQ2),
-	)
-	_, neq_list := dt.Unify(neq_pred)
-
-	for _, ms := range neq_list {
-		ms_ordered := orderSubstForRetrieve(ms.MatchingSubstitutions().GetSubst(), MetaNEQ1, MetaNEQ2)
-		neq1_term, ok_t1 := ms_ordered.Get(MetaNEQ1)
-		if ok_t1 == -1 {
-			Glob.Anomaly("RI", "Meta_eq_1 not found in map")
-		}
-		neq2_term, ok_t2 := ms_ordered.Get(MetaNEQ2)
-		if ok_t2 == -1 {
-			Glob.Anomaly("RI", "Meta_eq_1 not found in map")
+		if pred, ok := ms.GetForm().(AST.Pred); ok && pred.GetArgs().Len() == 2 {
+			res = append(res, eqStruct.MakeTermPair(pred.GetArgs().At(0), pred.GetArgs().At(1)))
 		}
-		res = append(res, eqStruct.MakeTermPair(neq1_term, neq2_term))
 	}
 	return res
 }
-
-/* Reoder substitution in case of metavariable equalities. (X, META_1) => (META_1, X). Need to find association. */
-func orderSubstForRetrieve(s Unif.Substitutions, M1, M2 AST.Meta) Unif.Substitutions {
-	new_subst := Unif.MakeEmptySubstitution()
-	for _, subst := range s {
-		k, v := subst.Get()
-		if !k.Equals(M1) && !k.Equals(M2) {
-			if !v.IsMeta() {
-				Glob.Anomaly("OSFR", "Meta EQ/NEQ not found")
-			} else {
-				new_subst.Set(v.ToMeta(), k)
-			}
-		} else {
-			new_subst.Set(k, v)
-		}
-	}
-	Unif.EliminateMeta(&new_subst)
-	Unif.Eliminate(&new_subst)
-	return new_subst
-}
-- 
2.43.0


From be6d08abe78d2bee68500aaeb8c626a486f021bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 03/57] fix: do not loop forever when printing a term form

---
 src/Unif/parsing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unif/parsing.go b/src/Unif/parsing.go
index c8a80fc..52e6d8e 100644
--- a/src/Unif/parsing.go
+++ b/src/Unif/parsing.go
@@ -42,7 +42,7 @@ type TermForm struct {
 	t     AST.Term
 }
 
-func (t TermForm) ToString() string          { return t.ToString() }
+func (t TermForm) ToString() string          { return t.t.ToString() }
 func (t TermForm) GetTerm() AST.Term         { return t.t.Copy() }
 func (t TermForm) Copy() AST.Form            { return makeTermForm(t.GetIndex(), t.GetTerm()) }
 func (t TermForm) RenameVariables() AST.Form { return t }
-- 
2.43.0


From e42b533756e16e6e6a5cfaf749319c11ce381aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 04/57] fix: look equalities up by term rather than by printed
 name

Two metavariables print the same name, so the map keyed on printed terms mixed their equalities.
---
 src/Mods/equality/bse/equality_problem.go     | 47 ++++++-------------
 .../equality/bse/equality_rules_try_apply.go  |  2 +-
 2 files changed, 15 insertions(+), 34 deletions(-)

diff --git a/src/Mods/equality/bse/equality_problem.go b/src/Mods/equality/bse/equality_problem.go
index 803d84e..383b41b 100644
--- a/src/Mods/equality/bse/equality_problem.go
+++ b/src/Mods/equality/bse/equality_problem.go
@@ -49,7 +49,6 @@ import (
 
 type EqualityProblem struct {
 	E_tree Unif.DataStructure
-	E_map  map[string]Lib.List[AST.Term]
 	E      Equalities
 	s, t   AST.Term
 	c      ConstraintStruct
@@ -58,8 +57,19 @@ type EqualityProblem struct {
 func (ep EqualityProblem) getETree() Unif.DataStructure {
 	return ep.E_tree.Copy()
 }
-func (ep EqualityProblem) getEMap() map[string]Lib.List[AST.Term] {
-	return ep.E_map
+
+/* Returns every term r such that l = r (or r = l) is one of the equalities of the problem. */
+func (ep EqualityProblem) getEqualTerms(l AST.Term) Lib.List[AST.Term] {
+	res := Lib.NewList[AST.Term]()
+	for _, e := range ep.E {
+		if e.GetT1().Equals(l) {
+			res.Append(e.GetT2())
+		}
+		if e.GetT2().Equals(l) {
+			res.Append(e.GetT1())
+		}
+	}
+	return res
 }
 func (ep EqualityProblem) GetE() Equalities {
 	return ep.E.copy()
@@ -131,7 +141,7 @@ func makeEqualityProblemList(E Equalities, goal []eqStruct.TermPair) EqualityPro
 }
 
 func makeEqualityProblem(E Equalities, s AST.Term, t AST.Term, c ConstraintStruct) EqualityProblem {
-	return EqualityProblem{makeDataStructFromEqualities(E.copy()), makeEQMapFromEqualities(E.copy()), E.copy(), s.Copy(), t.Copy(), c.copy()}
+	return EqualityProblem{makeDataStructFromEqualities(E.copy()), E.copy(), s.Copy(), t.Copy(), c.copy()}
 }
 
 /* Take a list of equalities and build the corresponding code tree */
@@ -142,32 +152,3 @@ func makeDataStructFromEqualities(eq Equalities) Unif.DataStructure {
 	}
 	return Unif.NewNode().MakeDataStruct(Lib.ListCpy(formList), true)
 }
-
-/* Take a list of equalities and build the corresponding assocative map */
-func makeEQMapFromEqualities(eq Equalities) map[string]Lib.List[AST.Term] {
-	map_res := make(map[string]Lib.List[AST.Term])
-
-	for _, e := range eq {
-		key1 := e.GetT1().ToString()
-		key2 := e.GetT2().ToString()
-
-		if _, found := map_res[key1]; !found {
-			map_res[key1] = Lib.NewList[AST.Term]()
-		}
-
-		if _, found := map_res[key2]; !found {
-			map_res[key2] = Lib.NewList[AST.Term]()
-		}
-
-		upd1 := map_res[key1]
-		upd2 := map_res[key2]
-
-		upd1.Append(e.GetT2())
-		upd2.Append(e.GetT1())
-
-		map_res[key1] = upd1
-		map_res[key2] = upd2
-	}
-
-	return map_res
-}
diff --git a/src/Mods/equality/bse/equality_rules_try_apply.go b/src/Mods/equality/bse/equality_rules_try_apply.go
index cfc5a35..9b34ce4 100644
--- a/src/Mods/equality/bse/equality_rules_try_apply.go
+++ b/src/Mods/equality/bse/equality_rules_try_apply.go
@@ -141,7 +141,7 @@ func connectLAndR(list_l_prime_l []eqStruct.TermPair, ep EqualityProblem, s AST.
 			}),
 		)
 
-		for _, r := range ep.getEMap()[l_prime_l_pair.GetT2().ToString()].GetSlice() {
+		for _, r := range ep.getEqualTerms(l_prime_l_pair.GetT2()).GetSlice() {
 			debug(
 				Lib.MkLazy(func() string {
 					return fmt.Sprintf(
-- 
2.43.0


From 7a0ad757aee3f9cd49bc1f950d4c4634479b023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 05/57] fix: keep the other side of an equation when its second
 side is rewritten

The right and left superposition rules replaced it by the unrewritten side, which let g(a,a) = b be proved from a = b.
---
 src/Mods/equality/bse/equality_rules_apply.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mods/equality/bse/equality_rules_apply.go b/src/Mods/equality/bse/equality_rules_apply.go
index 40d6e8a..d69088b 100644
--- a/src/Mods/equality/bse/equality_rules_apply.go
+++ b/src/Mods/equality/bse/equality_rules_apply.go
@@ -80,7 +80,7 @@ func applyLeftRule(rs ruleStruct, ep EqualityProblem, father_chan chan answerEP,
 		if rs.getIsSModified() {
 			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(new_term.Copy(), rs.getT())
 		} else {
-			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(rs.getS(), new_term.Copy())
+			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(rs.getT(), new_term.Copy())
 		}
 		debug(
 			Lib.MkLazy(func() string { return fmt.Sprintf("New EQ list : %v", new_eq_list.ToString()) }),
@@ -110,7 +110,7 @@ func applyRightRule(rs ruleStruct, ep EqualityProblem, father_chan chan answerEP
 		if rs.getIsSModified() {
 			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), new_term.Copy(), rs.getT(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
 		} else {
-			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), rs.getS(), new_term.Copy(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
+			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), rs.getT(), new_term.Copy(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
 		}
 	} else {
 		debug(
-- 
2.43.0


From 084708b8b71d1f045ed67654afe87b5de5f404e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 06/57] fix: keep the equality of two parent metavariables
 bound to one child metavariable

---
 src/Core/substitutions_search.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Core/substitutions_search.go b/src/Core/substitutions_search.go
index a12c709..94f69cb 100644
--- a/src/Core/substitutions_search.go
+++ b/src/Core/substitutions_search.go
@@ -100,10 +100,11 @@ func RemoveElementWithoutMM(
 
 				switch typedTerm := term.(type) {
 				case AST.Meta:
-					if relevantMetas.Contains(meta) &&
-						relevantMetas.Contains(typedTerm) {
+					if relevantMetas.Contains(meta) {
 						subst_to_reorganize.Set(meta, typedTerm)
-						res.Set(meta, typedTerm)
+						if relevantMetas.Contains(typedTerm) {
+							res.Set(meta, typedTerm)
+						}
 					}
 
 				default:
-- 
2.43.0


From 6571f50c3a81aa6d1675913fd7ee300e2ab1dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 07/57] fix: only relate a term to the terms of the other class
 in the SAT encoding of congruence

---
 src/Mods/equality/sateq/satbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mods/equality/sateq/satbuilder.go b/src/Mods/equality/sateq/satbuilder.go
index 2a12c85..90c6b4f 100644
--- a/src/Mods/equality/sateq/satbuilder.go
+++ b/src/Mods/equality/sateq/satbuilder.go
@@ -199,7 +199,7 @@ func (sb *SatBuilder) 𝜓Constraint(index int, ec1, ec2 *eqClass) {
 	for _, tr1 := range sb.problem.TermsInClass(ec1).Slice() {
 		if !tr1.isMeta() && len(tr1.args) != 0 {
 			for _, tr2 := range sb.problem.TermsWithSymbol(tr1.index).Slice() {
-				if !tr1.eqClass.congruent(tr2.eqClass) {
+				if tr2.eqClass.congruent(ec2) {
 					fVar := sb.getVarFromFMapping(index, tr1, tr2)
 					vars2 := []Lit{fVar}
 
-- 
2.43.0


From afed5cddde97bc82abb4a3f98b55a5a79a115eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 08/57] fix: print the empty equality predicate of a closure by
 equality reasoning

---
 src/AST/modular-printing.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AST/modular-printing.go b/src/AST/modular-printing.go
index edef719..cc3c69a 100644
--- a/src/AST/modular-printing.go
+++ b/src/AST/modular-printing.go
@@ -194,7 +194,9 @@ func (p Printer) OnFunctionalArgs(i Id, tys, con string, args Lib.List[Term]) st
 	is_infix := Lib.ListMem(i, infix)
 	arguments := Lib.ListToString(args, Lib.WithSep(p.StrConn(SepArgs)), Lib.WithEmpty(""))
 
-	if is_infix {
+	// The empty equality predicate stands for a closure by equality reasoning in the proofs:
+	// it has no argument to put around the symbol.
+	if is_infix && !args.Empty() {
 		// We expect to have between two and three arguments in an infix function
 		// as it might have a type argument.
 		if args.Len() < 2 || args.Len() > 3 {
-- 
2.43.0


From 37c526fc21480c808557d6e06e472a209e095f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 09/57] fix: build no equality problem between propositional
 variables

---
 src/Mods/equality/bse/equality_problem_list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Mods/equality/bse/equality_problem_list.go b/src/Mods/equality/bse/equality_problem_list.go
index fce9874..03b1da1 100644
--- a/src/Mods/equality/bse/equality_problem_list.go
+++ b/src/Mods/equality/bse/equality_problem_list.go
@@ -247,7 +247,8 @@ func buildEqualityProblemMultiListFromFormList(fl Lib.List[AST.Form], tn Unif.Da
 			debug(
 				Lib.MkLazy(func() string { return fmt.Sprintf("Pred found : %v", p.ToString()) }),
 			)
-			if !pt.GetID().Equals(AST.Id_eq) {
+			// There is nothing to make equal between two propositional variables.
+			if !pt.GetID().Equals(AST.Id_eq) && !pt.GetArgs().Empty() {
 				res = append(res, buildEqualityProblemMultiListFromPredList(pt, tn, eq.copy())...)
 			}
 		}
-- 
2.43.0


From 1e6e5ad2306509717a1a145f19496e4ec9edb809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 10/57] fix: apply a substitution to every occurrence of a
 metavariable

---
 src/AST/formsDef.go              |  2 +-
 src/AST/term-list.go             | 12 +++++++++++-
 src/Core/substitutions_search.go |  2 +-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/AST/formsDef.go b/src/AST/formsDef.go
index ed4183d..bedf152 100644
--- a/src/AST/formsDef.go
+++ b/src/AST/formsDef.go
@@ -990,7 +990,7 @@ func (p Pred) ReplaceMetaByTerm(meta Meta, term Term) Form {
 		p.GetIndex(),
 		p.id,
 		p.tys,
-		Lib.ListMap(p.args, func(t Term) Term { return t.ReplaceSubTermBy(meta, term) }),
+		Lib.ListMap(p.args, func(t Term) Term { return ReplaceAllInTerm(t, meta, term) }),
 	)
 }
 
diff --git a/src/AST/term-list.go b/src/AST/term-list.go
index ab4d882..3ad782e 100644
--- a/src/AST/term-list.go
+++ b/src/AST/term-list.go
@@ -81,6 +81,16 @@ func replaceFirstOccurrenceTermList(
 	return res, updated
 }
 
+/*
+Replace all occurences of a term by another in a term
+*/
+func ReplaceAllInTerm(term, replaceThis, withThis Term) Term {
+	if fun, isFun := term.(Fun); isFun {
+		return fun.ReplaceAllSubTerm(replaceThis, withThis)
+	}
+	return term.ReplaceSubTermBy(replaceThis, withThis)
+}
+
 /*
 Replace all occurences of a term by another in the list
 */
@@ -93,7 +103,7 @@ func ReplaceOccurrence(
 
 	for i := range tl.GetSlice() {
 		// FIXME: should [res.At(i)] be copied? I don't think so but we'll see.
-		trm := tl.At(i).ReplaceSubTermBy(replaceThis, withThis)
+		trm := ReplaceAllInTerm(tl.At(i), replaceThis, withThis)
 		if !trm.Equals(tl.At(i)) {
 			hasUpdated = true
 		}
diff --git a/src/Core/substitutions_search.go b/src/Core/substitutions_search.go
index 94f69cb..d49c96c 100644
--- a/src/Core/substitutions_search.go
+++ b/src/Core/substitutions_search.go
@@ -273,7 +273,7 @@ func ApplySubstitutionsOnTerm(substs Lib.List[Unif.MixedSubstitution], t AST.Ter
 			t = t.SubstTy(meta, ty)
 		case Lib.Right[Unif.TySubstitution, Unif.Substitution]:
 			meta, term := s.Val.Get()
-			t = t.ReplaceSubTermBy(meta, term)
+			t = AST.ReplaceAllInTerm(t, meta, term)
 		}
 	}
 
-- 
2.43.0


From 89bd15d4a040ae16c642c52d011f5f25d46439e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 11/57] fix: do not look for the missing term of a vacuous
 quantifier in GS3 proofs

---
 src/Mods/gs3/proof.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Mods/gs3/proof.go b/src/Mods/gs3/proof.go
index 6f534e4..aeb0119 100644
--- a/src/Mods/gs3/proof.go
+++ b/src/Mods/gs3/proof.go
@@ -407,6 +407,10 @@ func (gs GS3Proof) getRulesAppliedInOrder(term AST.Term, dependantForms Lib.List
 
 func (gs GS3Proof) getOffspringsOf(term AST.Term) Lib.List[AST.Form] {
 	offsprings := Lib.NewList[AST.Form]()
+	// The variable of a vacuous quantifier is not replaced by any term.
+	if term == nil {
+		return offsprings
+	}
 	for _, form := range gs.branchForms.GetSlice() {
 		if form.GetSubTerms().Contains(term, AST.TermEquals) {
 			offsprings.Append(form)
@@ -701,6 +705,9 @@ func (gs *GS3Proof) removeFromDeltaHisto(term AST.Term) {
 func (gs *GS3Proof) weakenAllFormsRelatedToTheTerm(term AST.Term) (Lib.List[AST.Form], []Glob.Pair[Rule, Search.ProofStruct]) {
 	rules := []Glob.Pair[Rule, Search.ProofStruct]{}
 	forms := Lib.NewList[AST.Form]()
+	if term == nil {
+		return forms, rules
+	}
 	for _, form := range gs.branchForms.GetSlice() {
 		if form.GetSubTerms().Contains(term, AST.TermEquals) {
 			// Get the rule to apply it back
@@ -718,7 +725,7 @@ func (gs *GS3Proof) weakenAllFormsRelatedToTheTerm(term AST.Term) (Lib.List[AST.
 
 func (gs GS3Proof) termHasBeenIntroducedByBranch(term AST.Term, nodeId int) bool {
 	for _, p := range gs.deltaHisto {
-		if p.Fst.Equals(term) {
+		if p.Fst != nil && p.Fst.Equals(term) {
 			// DMT needs the nodeId here, as the same formula will produce the same skolem symbol in two different
 			// branches potentially.
 			return p.Snd.Snd == nodeId
-- 
2.43.0


From f314ed20a182e6f0b5a8366bac32c9b0bd83ab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 12/57] fix: export the proofs of axioms alone, of congruence
 closures and of equivalences between negations

---
 src/Mods/gs3/sequent.go |  5 ++-
 src/Mods/rocq/proof.go  | 21 ++++++----
 src/Mods/tptp/proof.go  | 91 +++++++++++++++++++++++++++++++----------
 3 files changed, 86 insertions(+), 31 deletions(-)

diff --git a/src/Mods/gs3/sequent.go b/src/Mods/gs3/sequent.go
index 103ff7b..8ff8f8d 100644
--- a/src/Mods/gs3/sequent.go
+++ b/src/Mods/gs3/sequent.go
@@ -126,8 +126,11 @@ func (seq *GS3Sequent) GetResultFormulasOfChild(i int) Lib.List[AST.Form] {
 func (seq *GS3Sequent) GetResultFormulasOfChildren() []Lib.List[AST.Form] {
 	result := []Lib.List[AST.Form]{}
 
+	// Weakening steps have a child but generate no formula.
 	for i := range seq.children {
-		result = append(result, seq.formsGenerated[i])
+		if i < len(seq.formsGenerated) {
+			result = append(result, seq.formsGenerated[i])
+		}
 	}
 
 	return result
diff --git a/src/Mods/rocq/proof.go b/src/Mods/rocq/proof.go
index e6c2721..fc67572 100644
--- a/src/Mods/rocq/proof.go
+++ b/src/Mods/rocq/proof.go
@@ -52,7 +52,7 @@ var dummy int
 func makeRocqProofFromGS3(proof *gs3.GS3Sequent) string {
 	dummy = 0
 	axioms, conjecture := processMainFormula(proof.GetTargetForm())
-	totalAxioms := axioms.Len()
+	_, isConjunction := proof.GetTargetForm().(AST.And)
 	if Glob.IsLoaded("dmt") {
 		axioms.Append(dmt.GetRegisteredAxioms().GetSlice()...)
 	}
@@ -66,9 +66,10 @@ func makeRocqProofFromGS3(proof *gs3.GS3Sequent) string {
 			indices[i], hypotheses = introduce(form, hypotheses)
 		}
 		resultingString += "intros " + strings.Join(Glob.MapTo(indices, func(_ int, index int) string { return introName(index) }), " ") + ". "
-		if totalAxioms > 0 {
-			proof = proof.Child(0)
-		}
+	}
+	// The conjunction of the axioms has already been split.
+	if isConjunction {
+		proof = proof.Child(0)
 	}
 	index, hypotheses := introduce(AST.MakerNot(conjecture), hypotheses)
 	resultingString += "intro " + introName(index) + ". "
@@ -238,17 +239,19 @@ func rewriteStep(rewriteRule AST.Form, hypotheses Lib.List[AST.Form], target int
 }
 
 // Processes the formula that was proven by Goéland.
+// When there is no negated conjecture to be found, every formula is an axiom and the proof is the one of false.
 func processMainFormula(form AST.Form) (Lib.List[AST.Form], AST.Form) {
-	formList := Lib.NewList[AST.Form]()
 	switch nf := form.(type) {
 	case AST.Not:
-		form = nf.GetForm()
+		return Lib.NewList[AST.Form](), nf.GetForm()
 	case AST.And:
 		last := nf.GetChildFormulas().Len() - 1
-		formList = Lib.MkListV(nf.GetChildFormulas().Get(0, last)...)
-		form = nf.GetChildFormulas().At(last).(AST.Not).GetForm()
+		if not, isNot := nf.GetChildFormulas().At(last).(AST.Not); isNot {
+			return Lib.MkListV(nf.GetChildFormulas().Get(0, last)...), not.GetForm()
+		}
+		return Lib.ListCpy(nf.GetChildFormulas()), AST.MakerBot()
 	}
-	return formList, form
+	return Lib.MkListV(form), AST.MakerBot()
 }
 
 // Prints the theorem's name & properly formats the first formula.
diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index 53a18f0..4fe3a99 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -64,6 +64,7 @@ var dummyTerm = AST.MakerConst(AST.MakerId("Goeland_I"))
 
 func makeTptpProofFromGS3(proof *gs3.GS3Sequent) string {
 	axioms, conjecture := processMainFormula(proof.GetTargetForm())
+	_, isConjunction := proof.GetTargetForm().(AST.And)
 	resultingString := makeTheorem(axioms, conjecture)
 	hypotheses := Lib.ListCpy(axioms)
 	hypotheses.Append(AST.MakerNot(conjecture.Copy()))
@@ -72,10 +73,11 @@ func makeTptpProofFromGS3(proof *gs3.GS3Sequent) string {
 
 	firstStep, nextId := performFirstStep(axioms, conjecture, hypotheses, 0)
 
-	if axioms.Len() == 0 {
-		resultingString += followProofSteps(proof, hypotheses, nextId)
-	} else {
+	// The conjunction of the axioms has already been split.
+	if isConjunction {
 		resultingString += followProofSteps(proof.Child(0), hypotheses, nextId)
+	} else {
+		resultingString += followProofSteps(proof, hypotheses, nextId)
 	}
 
 	res := resultingString + "\n" + firstStep + AxiomCut
@@ -132,7 +134,11 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_current_
 	next_child_weakened_id := -1
 
 	updateId(proof, new_current_id)
-	target := get(proof.GetTargetForm(), hypotheses)
+	// A closure by congruence does not target a formula of the context.
+	target := -1
+	if proof.Rule() != gs3.AX || !isPredEqual(proof.GetTargetForm()) {
+		target = get(proof.GetTargetForm(), hypotheses)
+	}
 
 	switch proof.Rule() {
 
@@ -144,6 +150,15 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_current_
 				Lib.ListToString(hypotheses, Lib.WithEmpty("")),
 				"congruence",
 				"")
+		} else if isBot(proof.GetTargetForm()) {
+			resultingString = fmt.Sprintf("fof("+prefix_step+"%d, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s])).",
+				proof.GetId(),
+				Lib.ListToString(hypotheses, Lib.WithEmpty("")),
+				"leftFalse",
+				target,
+				"")
+		} else if isNotTop(proof.GetTargetForm()) {
+			resultingString = notTopStep(proof, hypotheses, target)
 		} else {
 			targetPos := findIndexPos(proof.GetTargetForm(), hypotheses, target)
 
@@ -204,6 +219,26 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_current_
 	return resultingString + "\n", childrenHypotheses, next_child_weakened_id
 }
 
+// Closes a sequent with ~$true in its left-hand side.
+func notTopStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int) string {
+	right_id := fmt.Sprintf("%s%dext1", prefix_step, proof.GetId())
+
+	return fmt.Sprintf("fof(%s, plain, [%s] --> [%s], inference(%s, [status(thm), %d], [%s])).\n\n",
+		right_id,
+		Lib.ListToString(hypotheses, Lib.WithEmpty("")),
+		AST.MakerTop().ToString(),
+		"rightTrue",
+		0,
+		"") +
+		fmt.Sprintf("fof(%s%d, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s])).",
+			prefix_step,
+			proof.GetId(),
+			Lib.ListToString(hypotheses, Lib.WithEmpty("")),
+			"leftNot",
+			target,
+			right_id)
+}
+
 func alphaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int, format string) (string, []Lib.List[AST.Form]) {
 
 	children_id := []int{}
@@ -260,7 +295,9 @@ func deltaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int,
 
 	new_term := createNewConstant(proof.TermGenerated())
 
-	proof = updateSkolemSymbol(proof.TermGenerated(), new_term, proof)
+	if proof.TermGenerated() != nil {
+		proof = updateSkolemSymbol(proof.TermGenerated(), new_term, proof)
+	}
 
 	resultingString := fmt.Sprintf("fof(%s%d, plain, [%s] --> [], inference(%s, [status(thm), %d, '%s'], [%s])).",
 		prefix_step,
@@ -387,10 +424,10 @@ func EquStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int) (
 		s2_closure_id) + resultingString
 	resultHyps[0] = Lib.ListAdd(resultHyps[0], newHypS2.GetSlice()...)
 
-	// Branch 2.closure : from ~A, A closure - check polarity before
+	// Branch 2.closure : from ~A, A closure
 	newHypS2Closure := Lib.ListCpy(newHypS2)
 	newHypS2Closure = Lib.ListAdd(newHypS2Closure, A)
-	targetPosS2 := findIndexPos(A, newHypS2Closure, get(A, newHypS2Closure))
+	targetPosS2 := get(A, newHypS2Closure)
 	resultingString = fmt.Sprintf("fof(%s, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s])).\n\n",
 		s2_closure_id,
 		Lib.ListToString(newHypS2Closure, Lib.WithEmpty("")),
@@ -412,10 +449,10 @@ func EquStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int) (
 		children_id[1]) + resultingString
 	resultHyps[1] = Lib.ListAdd(resultHyps[1], newHypS3.GetSlice()...)
 
-	// Branch 3.closure : from B, ~B closure - check polarity before
+	// Branch 3.closure : from B, ~B closure
 	newHypS3Closure := Lib.ListCpy(newHypS3)
 	newHypS3Closure = Lib.ListAdd(newHypS3Closure, notB.Copy())
-	targetPosS3 := findIndexPos(B, newHypS3Closure, get(B, newHypS3Closure))
+	targetPosS3 := get(B, newHypS3Closure)
 	resultingString = fmt.Sprintf("fof(%s, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s])).\n\n",
 		s3_closure_id,
 		Lib.ListToString(newHypS3Closure, Lib.WithEmpty("")),
@@ -489,22 +526,19 @@ func NotEquStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int
 /*** Initial Formula Management ***/
 
 // Processes the formula that was proven by Goéland.
+// When there is no negated conjecture to be found, every formula is an axiom and the proof is the one of false.
 func processMainFormula(form AST.Form) (Lib.List[AST.Form], AST.Form) {
-	formList := Lib.NewList[AST.Form]()
 	switch nf := form.(type) {
 	case AST.Not:
-		form = nf.GetForm()
+		return Lib.NewList[AST.Form](), nf.GetForm()
 	case AST.And:
 		last := nf.GetChildFormulas().Len() - 1
-		formList = Lib.MkListV(nf.GetChildFormulas().Get(0, last)...)
-		switch f := nf.GetChildFormulas().At(last).(type) {
-		case AST.Not:
-			form = f.GetForm()
-		default:
-			form = f
+		if not, isNot := nf.GetChildFormulas().At(last).(AST.Not); isNot {
+			return Lib.MkListV(nf.GetChildFormulas().Get(0, last)...), not.GetForm()
 		}
+		return Lib.ListCpy(nf.GetChildFormulas()), AST.MakerBot()
 	}
-	return formList, form
+	return Lib.MkListV(form), AST.MakerBot()
 }
 
 // Prints the theorem's name & properly formats the first formula.
@@ -619,6 +653,19 @@ func isPredEqual(f AST.Form) bool {
 	return false
 }
 
+func isBot(f AST.Form) bool {
+	_, res := f.(AST.Bot)
+	return res
+}
+
+func isNotTop(f AST.Form) bool {
+	if not, isNot := f.(AST.Not); isNot {
+		_, res := not.GetForm().(AST.Top)
+		return res
+	}
+	return false
+}
+
 func incrByOne(cpt *int, mutex *sync.Mutex) int {
 	res := -1
 	mutex.Lock()
@@ -637,8 +684,10 @@ func updateId(proof *gs3.GS3Sequent, i int) {
 func updateSkolemSymbol(old, new AST.Term, proof *gs3.GS3Sequent) *gs3.GS3Sequent {
 
 	// Update Target Form
-	new_target_form, _ := proof.GetTargetForm().ReplaceTermByTerm(old, new)
-	proof.SetTargetForm(new_target_form)
+	if !proof.IsEmpty() {
+		new_target_form, _ := proof.GetTargetForm().ReplaceTermByTerm(old, new)
+		proof.SetTargetForm(new_target_form)
+	}
 
 	// Update generated term
 	if proof.TermGenerated() != nil {
@@ -691,7 +740,7 @@ func findInConstants(term AST.Term) AST.Term {
 
 func getCreatedFromOriginal(term AST.Term) AST.Term {
 	for i, t := range original_term {
-		if t.Equals(term) {
+		if t != nil && t.Equals(term) {
 			return constant_created[i]
 		}
 	}
-- 
2.43.0


From da5316d419ed912b2efd40714ed968ec1b0f962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 13/57] fix: read the last token of a file that does not end
 with a newline

---
 src/Parser/tptp_lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 8ed6630..be947b0 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -845,7 +845,8 @@ func ParseTPTPFile(filename string) ([]PStatement, int, bool) {
 		Glob.Fatal(parse_label, err.Error())
 	}
 
-	TPTPParse(&TPTPLex{s: string(data)})
+	// The lexer looks one character ahead: make sure that the last token is never the last character.
+	TPTPParse(&TPTPLex{s: string(data) + "\n"})
 
 	return statement, quantifiersCounter, containsEquality
 }
-- 
2.43.0


From 41cd7413260409412aa54ced89c4dfbe5fde4988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 14/57] fix: reject an unknown character instead of dropping
 the rest of the file

---
 src/Parser/tptp_lex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index be947b0..21523ea 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -825,6 +825,8 @@ func (lexer *TPTPLex) Lex(yylval *TPTPSymType) int {
 		return token
 	}
 
+	// The failure token is also the end of file of the parser: returning it would drop the rest of the file.
+	lexer.Error(fmt.Sprintf("unexpected character %q", lexer.c))
 	return FAILURE_TOKEN
 }
 
-- 
2.43.0


From a667e33dbd564f24b63104f3f8960ab3b721ae2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 15/57] fix: end a line comment at the end of the line

---
 src/Parser/tptp_lex.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 21523ea..130f959 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -100,7 +100,7 @@ func (lexer TPTPLex) checkNext(c rune) bool {
 func (lexer *TPTPLex) filterComments() bool {
 	if lexer.c == '%' { // Comment line
 		lexer.advance()
-		for lexer.pos < len(lexer.s) && lexer.isPrintableChar() {
+		for lexer.pos < len(lexer.s) && lexer.c != '\n' {
 			lexer.advance()
 		}
 		return lexer.pos < len(lexer.s)
@@ -140,14 +140,6 @@ func (lexer *TPTPLex) filterSpaces() bool {
 	return lexer.pos < len(lexer.s)
 }
 
-// <printable_char>       ::: .
-// %----<printable_char> is any printable ASCII character, codes 32 (space) to 126
-// %----(tilde). <printable_char> does not include tabs, newlines, bells, etc. The
-// %----use of . does not not exclude tab, so this is a bit loose.
-func (lexer *TPTPLex) isPrintableChar() bool {
-	return int(lexer.c) >= 32 && int(lexer.c) <= 126
-}
-
 // <not_star_slash>       ::: ([^*]*[*][*]*[^/*])*[^*]*
 func (lexer *TPTPLex) notStarSlash() bool {
 	return lexer.c != '*' || !lexer.checkAdvance('/')
-- 
2.43.0


From c76fa813ff1d705826f8558fcd53e004394ba0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 16/57] fix: accept a quantifier that is not followed by a
 space

---
 src/Parser/tptp_lex.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 130f959..008906f 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -226,19 +226,13 @@ func (lexer *TPTPLex) isOperator() (int, bool) {
 		if lexer.checkAdvance('>') { // !>
 			word += ">"
 			quantifiersCounter += 1
+		} else if lexer.pos < len(lexer.s) && lexer.checkNext('=') { // !=
+			return FAILURE_TOKEN, false
 		} else {
-			if lexer.pos >= len(lexer.s) || lexer.checkNext(' ') {
-				quantifiersCounter += 1
-			} else {
-				return FAILURE_TOKEN, false
-			}
-		}
-	case '?':
-		if lexer.pos >= len(lexer.s) || lexer.checkNext(' ') {
 			quantifiersCounter += 1
-		} else {
-			return FAILURE_TOKEN, false
 		}
+	case '?':
+		quantifiersCounter += 1
 	case '<':
 		if lexer.checkAdvance('=') { // <=> or <=
 			word += "="
-- 
2.43.0


From 8a74bbd2d48c729acc796abc3f05b10a5add0bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 17/57] fix: keep the escaped characters of quoted words apart

---
 src/Parser/tptp_lex.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 008906f..5b71113 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -354,7 +354,7 @@ func (lexer *TPTPLex) singleQuoted(yylval *TPTPSymType) {
 		if lexer.c == '\\' {
 			lexer.advance()
 			if lexer.c == '\\' || lexer.c == '\'' {
-				word += string('\\' + lexer.c)
+				word += "\\" + string(lexer.c)
 			}
 		} else {
 			word += string(lexer.c)
@@ -370,7 +370,7 @@ func (lexer *TPTPLex) distinctObject(yylval *TPTPSymType) {
 		if lexer.c == '\\' {
 			lexer.advance()
 			if lexer.c == '\\' || lexer.c == '"' {
-				word += string('\\' + lexer.c)
+				word += "\\" + string(lexer.c)
 			}
 		} else {
 			word += string(lexer.c)
-- 
2.43.0


From 2cc644f2398b5fa46dd18f5858f948e12b1d7bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 18/57] fix: reject a quoted word that is not closed on its
 line

---
 src/Parser/tptp_lex.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 5b71113..dc8eb69 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -339,10 +339,16 @@ func (lexer *TPTPLex) quotedWords(yylval *TPTPSymType) int {
 	if lexer.c == '\'' {
 		lexer.advance()
 		lexer.singleQuoted(yylval)
+		if lexer.c != '\'' {
+			lexer.Error("quoted word started but never ended.")
+		}
 		return SINGLE_QUOTED
 	} else if lexer.c == '"' {
 		lexer.advance()
 		lexer.distinctObject(yylval)
+		if lexer.c != '"' {
+			lexer.Error("distinct object started but never ended.")
+		}
 		return DISTINCT_OBJECT
 	}
 	return FAILURE_TOKEN
-- 
2.43.0


From 60a960882966c9c6c11855f743811f1000de4667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 19/57] fix: keep a distinct object apart from the constant of
 the same name

---
 src/Parser/tptp_lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index dc8eb69..113dd6d 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -383,7 +383,8 @@ func (lexer *TPTPLex) distinctObject(yylval *TPTPSymType) {
 		}
 		lexer.advance()
 	}
-	yylval.str = word
+	// The quotes are part of the name: "cat" is neither cat nor 'cat'.
+	yylval.str = "\"" + word + "\""
 }
 
 // %---Space and visible characters upto ~, except ' and \
-- 
2.43.0


From 1e8c1bddb74de5419018a8edf7e62a62016e0d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 20/57] fix: honour the formula selection of an include

---
 src/Core/statement.go            | 14 ++++++++++----
 src/Engine/syntax-translation.go |  2 +-
 src/Parser/psyntax.go            | 20 ++++++++++++++++++++
 src/Parser/tptp_parse.y          | 20 ++++++++++++--------
 src/main.go                      | 24 +++++++++++++++++++++++-
 5 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/src/Core/statement.go b/src/Core/statement.go
index 5598b74..d1d8cbc 100644
--- a/src/Core/statement.go
+++ b/src/Core/statement.go
@@ -59,6 +59,7 @@ type Statement struct {
 	role       FormulaRole
 	form       Lib.Option[AST.Form]
 	atomTyping Lib.Option[TFFAtomTyping]
+	selection  Lib.Option[[]string]
 }
 
 func (s Statement) GetName() string {
@@ -74,16 +75,21 @@ func (s Statement) GetAtomTyping() Lib.Option[TFFAtomTyping] {
 	return s.atomTyping
 }
 
+// Include statements only: the names of the formulas to include (everything if there is no selection).
+func (s Statement) GetSelection() Lib.Option[[]string] {
+	return s.selection
+}
+
 func MakeFormStatement(s string, r FormulaRole, f AST.Form) Statement {
-	return Statement{s, r, Lib.MkSome(f), Lib.MkNone[TFFAtomTyping]()}
+	return Statement{s, r, Lib.MkSome(f), Lib.MkNone[TFFAtomTyping](), Lib.MkNone[[]string]()}
 }
 
 func MakeTypingStatement(s string, r FormulaRole, ty TFFAtomTyping) Statement {
-	return Statement{s, r, Lib.MkNone[AST.Form](), Lib.MkSome(ty)}
+	return Statement{s, r, Lib.MkNone[AST.Form](), Lib.MkSome(ty), Lib.MkNone[[]string]()}
 }
 
-func MakeIncludeStatement(s string) Statement {
-	return Statement{s, Include, Lib.MkNone[AST.Form](), Lib.MkNone[TFFAtomTyping]()}
+func MakeIncludeStatement(s string, selection Lib.Option[[]string]) Statement {
+	return Statement{s, Include, Lib.MkNone[AST.Form](), Lib.MkNone[TFFAtomTyping](), selection}
 }
 
 // Formula roles (enumerate type)
diff --git a/src/Engine/syntax-translation.go b/src/Engine/syntax-translation.go
index 404aab9..7cc550f 100644
--- a/src/Engine/syntax-translation.go
+++ b/src/Engine/syntax-translation.go
@@ -115,7 +115,7 @@ func elaborateParsingStatement(
 				Glob.Anomaly(elab_label, fmt.Sprintf(
 					"Statement %s is neither a formula nor a type nor an include", statement.ToString()))
 			} else {
-				core_statement = Core.MakeIncludeStatement(statement.Name())
+				core_statement = Core.MakeIncludeStatement(statement.Name(), statement.Selection())
 			}
 		}
 	}
diff --git a/src/Parser/psyntax.go b/src/Parser/psyntax.go
index 24c4bf1..ac1228d 100644
--- a/src/Parser/psyntax.go
+++ b/src/Parser/psyntax.go
@@ -35,6 +35,8 @@
 package Parser
 
 import (
+	"slices"
+
 	"github.com/GoelandProver/Goeland/Lib"
 )
 
@@ -362,12 +364,30 @@ type PStatement struct {
 	role PFormulaRole
 	form Lib.Option[PForm]
 	ty   Lib.Option[Lib.Pair[string, PType]]
+	// Include statements only: the names of the formulas to include (everything if there is no selection).
+	selection Lib.Option[[]string]
 }
 
 func (s PStatement) Name() string                                    { return s.name }
 func (s PStatement) Role() PFormulaRole                              { return s.role }
 func (s PStatement) Form() Lib.Option[PForm]                         { return s.form }
 func (s PStatement) TypedConst() Lib.Option[Lib.Pair[string, PType]] { return s.ty }
+func (s PStatement) Selection() Lib.Option[[]string]                 { return s.selection }
+
+// Include statements only: only include the formulas that are selected and belong to the given names.
+func (s PStatement) RestrictSelection(names []string) PStatement {
+	restricted := names
+	if selection, ok := s.selection.(Lib.Some[[]string]); ok {
+		restricted = []string{}
+		for _, name := range selection.Val {
+			if slices.Contains(names, name) {
+				restricted = append(restricted, name)
+			}
+		}
+	}
+	s.selection = Lib.MkSome(restricted)
+	return s
+}
 
 /*
 A function to get a FormulaRole from a String
diff --git a/src/Parser/tptp_parse.y b/src/Parser/tptp_parse.y
index 17ec036..4563360 100644
--- a/src/Parser/tptp_parse.y
+++ b/src/Parser/tptp_parse.y
@@ -73,6 +73,8 @@ type TypedVar = Lib.Pair[string, PAtomicType]
     stm PStatement
 	lstm []PStatement
 	strty Lib.Pair[string, PTypeFun]
+	names []string
+	sel Lib.Option[[]string]
 }
 
 // Tokens definition
@@ -100,6 +102,8 @@ type TypedVar = Lib.Pair[string, PAtomicType]
 %type <stm>  tptp_input annotated_formula include fof_annotated tpi_annotated
 %type <str>  name atomic_word atomic_defined_word file_name type_constant type_functor defined_type variable constant defined_constant functor defined_functor untyped_atom
 %type <strty> number
+%type <names> name_list
+%type <sel>  formula_selection
 %type <fr>   formula_role 
 %type <form>  tpi_formula
 %type <form>  tff_logic_formula tff_and_formula tff_binary_assoc tff_binary_formula tff_binary_nonassoc tff_or_formula tff_unitary_formula tff_unit_formula tff_preunit_formula tff_quantified_formula tff_unary_formula tff_prefix_unary tff_infix_unary tff_atomic_formula tff_plain_atomic_formula tff_defined_atomic tff_defined_plain
@@ -139,15 +143,15 @@ annotated_formula: fof_annotated    { $$ = $1 }
   ;
 
 tff_annotated: TFF LEFT_PAREN name COMMA formula_role COMMA tff_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, $7.form, $7.typ} }
+  { $$ = PStatement{$3, $5, $7.form, $7.typ, Lib.MkNone[[]string]()} }
   ;
 
 fof_annotated: FOF LEFT_PAREN name COMMA formula_role COMMA fof_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]]()} }
+  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]](), Lib.MkNone[[]string]()} }
   ;
 
 tpi_annotated: TPI LEFT_PAREN name COMMA formula_role COMMA tpi_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]]()} }
+  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]](), Lib.MkNone[[]string]()} }
   ;
 
 tpi_formula: fof_formula { $$ = $1 }
@@ -507,15 +511,15 @@ variable: UPPER_WORD { $$ = $1 }
   ;
 
 include: INCLUDE LEFT_PAREN file_name formula_selection RIGHT_PAREN DOT
-{ $$ = PStatement{$3, Include, Lib.MkNone[PForm](), Lib.MkNone[Lib.Pair[string, PType]]()} }
+{ $$ = PStatement{$3, Include, Lib.MkNone[PForm](), Lib.MkNone[Lib.Pair[string, PType]](), $4} }
   ;
 
-formula_selection:
-  | COMMA LEFT_BRACKET name_list RIGHT_BRACKET
+formula_selection:                              { $$ = Lib.MkNone[[]string]() }
+  | COMMA LEFT_BRACKET name_list RIGHT_BRACKET  { $$ = Lib.MkSome($3) }
   ;
 
-name_list: name
-  | name COMMA name_list
+name_list: name           { $$ = []string{$1} }
+  | name COMMA name_list  { $$ = append([]string{$1}, $3...) }
   ;
 
 source: general_term
diff --git a/src/main.go b/src/main.go
index 4f51ef7..7824280 100644
--- a/src/main.go
+++ b/src/main.go
@@ -43,6 +43,7 @@ import (
 	"path"
 	"runtime"
 	"runtime/pprof"
+	"slices"
 	"time"
 
 	_ "net/http/pprof"
@@ -257,7 +258,7 @@ func StatementListToFormula(
 			}
 
 			new_lstm, bound_tmp, contEq := Parser.ParseTPTPFile(realname)
-			actual_new_lstm, is_typed := Engine.ToInternalSyntax(new_lstm)
+			actual_new_lstm, is_typed := Engine.ToInternalSyntax(selectStatements(new_lstm, statement.GetSelection()))
 			containsEquality = containsEquality || contEq
 			new_form_list, new_bound, contEq, is_typed := StatementListToFormula(
 				actual_new_lstm,
@@ -335,6 +336,27 @@ func StatementListToFormula(
 	return nil, -1, false, false
 }
 
+// Keeps the statements of an included file that are named by the formula selection of the include.
+// The files included by this file are subject to the same selection.
+func selectStatements(
+	statements []Parser.PStatement,
+	selection Lib.Option[[]string],
+) []Parser.PStatement {
+	switch names := selection.(type) {
+	case Lib.Some[[]string]:
+		selected := []Parser.PStatement{}
+		for _, statement := range statements {
+			if statement.Role() == Parser.Include {
+				selected = append(selected, statement.RestrictSelection(names.Val))
+			} else if slices.Contains(names.Val, statement.Name()) {
+				selected = append(selected, statement)
+			}
+		}
+		return selected
+	}
+	return statements
+}
+
 func doAxiomStatement(andList Lib.List[AST.Form], f AST.Form) Lib.List[AST.Form] {
 	newForm := f.RenameVariables()
 
-- 
2.43.0


From 6e1e8cce2d5a46c52085191334ed5f0c61cf15ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 21/57] fix: type-check a problem whose types are declared in
 an included file

---
 src/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.go b/src/main.go
index 7824280..d438882 100644
--- a/src/main.go
+++ b/src/main.go
@@ -260,6 +260,7 @@ func StatementListToFormula(
 			new_lstm, bound_tmp, contEq := Parser.ParseTPTPFile(realname)
 			actual_new_lstm, is_typed := Engine.ToInternalSyntax(selectStatements(new_lstm, statement.GetSelection()))
 			containsEquality = containsEquality || contEq
+			is_typed_problem = is_typed_problem || is_typed
 			new_form_list, new_bound, contEq, is_typed := StatementListToFormula(
 				actual_new_lstm,
 				bound_tmp,
-- 
2.43.0


From 72109ff1da03703c328c5428521d91f9dc7b2836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 22/57] fix: rename apart to a variable that no other variable
 can be renamed to

---
 src/AST/maker.go       | 20 ++++++++++++++++++++
 src/AST/quantifiers.go |  3 +--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/AST/maker.go b/src/AST/maker.go
index 427701e..b142c9f 100644
--- a/src/AST/maker.go
+++ b/src/AST/maker.go
@@ -37,6 +37,7 @@
 package AST
 
 import (
+	"fmt"
 	"sync"
 
 	"github.com/GoelandProver/Goeland/Glob"
@@ -128,6 +129,25 @@ func MakerNewVar(s string) Var {
 	return vr
 }
 
+// Makes a variable whose name and index are those of no other variable: the suffix alone would not do, as X1 followed by
+// 5 is also X followed by 15.
+func MakerFreshVar(s string) Var {
+	lock_term.Lock()
+	defer lock_term.Unlock()
+
+	name := fmt.Sprintf("%s%d", s, cpt_term)
+	for _, used := idVar[name]; used; _, used = idVar[name] {
+		cpt_term += 1
+		name = fmt.Sprintf("%s%d", s, cpt_term)
+	}
+
+	// The suffix and the index are two different numbers.
+	vr := MakeVar(cpt_term+1, name)
+	idVar[name] = vr.GetIndex()
+	cpt_term += 2
+	return vr
+}
+
 /* Meta maker */
 func MakerMeta(s string, formula int, ty Ty) Meta {
 	lock_term.Lock()
diff --git a/src/AST/quantifiers.go b/src/AST/quantifiers.go
index a7e8a95..4df4c1d 100644
--- a/src/AST/quantifiers.go
+++ b/src/AST/quantifiers.go
@@ -157,8 +157,7 @@ func (q quantifier) renameVariables() quantifier {
 
 	newTyBv := Lib.NewList[Lib.Pair[TyBound, Ty]]()
 	for _, v := range q.GetVarList().GetSlice() {
-		newVar := MakerNewVar(v.GetName())
-		newVar = MakerVar(fmt.Sprintf("%s%d", newVar.GetName(), newVar.GetIndex()))
+		newVar := MakerFreshVar(v.GetName())
 		newVarList.Append(MkTypedVar(newVar.name, newVar.index, v.ty))
 		f, replaced := newForm.ReplaceTermByTerm(v.ToBoundVar(), newVar)
 		if !replaced {
-- 
2.43.0


From a8f70f62750c2663dc458d1029d825df4c13779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 23/57] fix: print the body of a quantifier between parentheses

---
 src/AST/quantifiers.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/AST/quantifiers.go b/src/AST/quantifiers.go
index 4df4c1d..6ca58d6 100644
--- a/src/AST/quantifiers.go
+++ b/src/AST/quantifiers.go
@@ -80,6 +80,15 @@ func (q quantifier) GetMetas() Lib.Set[Meta] {
 	return q.metas.Get(q)
 }
 
+// A quantifier binds tighter than the binary connectives.
+func (q quantifier) bodyToString() string {
+	switch q.subForm.(type) {
+	case And, Or, Imp, Equ:
+		return printer.SurroundChild(q.subForm.ToString())
+	}
+	return q.subForm.ToString()
+}
+
 func (q quantifier) ToString() string {
 	return fmt.Sprintf(
 		"%s %s%s%s",
@@ -90,7 +99,7 @@ func (q quantifier) ToString() string {
 			}).ToString(printer.StrTyVar, Lib.WithSep(printer.StrConn(SepTyVars)), Lib.WithEmpty("")),
 		),
 		printer.StrConn(SepVarsForm),
-		printer.Str(q.subForm.ToString()),
+		printer.Str(q.bodyToString()),
 	)
 }
 
-- 
2.43.0


From a3b8eb0a6661a8dbd532a34c1f42884ed27cf5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 24/57] fix: print the proof as it is rather than as a format

---
 src/Search/print_proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Search/print_proof.go b/src/Search/print_proof.go
index 69cf734..50bead9 100644
--- a/src/Search/print_proof.go
+++ b/src/Search/print_proof.go
@@ -83,5 +83,5 @@ func (ps *OutputProofStruct) printProofWithProofStruct(finalProof []ProofStruct,
 		f.WriteString(output)
 	}
 
-	fmt.Printf("\n" + output)
+	fmt.Print("\n" + output)
 }
-- 
2.43.0


From 1ffe575dd9d3e5cff7200a0037597c6fd9c9f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 25/57] fix: unify a metavariable with itself

---
 src/Unif/substitutions_tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Unif/substitutions_tree.go b/src/Unif/substitutions_tree.go
index 5a9be9e..c4d04ff 100644
--- a/src/Unif/substitutions_tree.go
+++ b/src/Unif/substitutions_tree.go
@@ -172,6 +172,11 @@ func AddUnification(term1, term2 AST.Term, subst Substitutions) Substitutions {
 				subst.ToString())
 		}),
 	)
+	// A term is unified with itself as it is; in particular, nothing is bound to itself.
+	if term1.Equals(term2) {
+		return subst
+	}
+
 	// unify with ct only if the term already has an unification or if there is 2 fun. Just add it and eliminate otherwise.
 	t1v, _ := subst.Get(term1.ToMeta())
 	t2v, _ := subst.Get(term2.ToMeta())
-- 
2.43.0


From 7f4dfc89a8909e4522215930aa5eb053744f438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 26/57] fix: propagate congruence to the superterms of merged
 classes

---
 src/Mods/equality/sateq/problem.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Mods/equality/sateq/problem.go b/src/Mods/equality/sateq/problem.go
index 7c409c6..04a67bc 100644
--- a/src/Mods/equality/sateq/problem.go
+++ b/src/Mods/equality/sateq/problem.go
@@ -147,7 +147,9 @@ func (problem *Problem) addNewTermRecord(tr *termRecord) *eqClass {
 			problem.functionsIndex[tr.index] = Glob.NewList[*termRecord]()
 		}
 		problem.functionsIndex[tr.index].Append(tr)
-		problem.supertermIndex[ec].Append(tr)
+		for _, arg := range tr.args {
+			problem.supertermIndex[arg.representative()].AppendIfNotContains(tr)
+		}
 	}
 	return ec
 }
@@ -173,9 +175,10 @@ func (problem *Problem) mergeEquivalenceClasses(ec1, ec2 *eqClass) {
 	delete(problem.supertermIndex, ecDeleted)
 
 	// propagate congruence
-	for _, t3 := range problem.supertermIndex[ecMerged].Slice() {
+	superterms := problem.supertermIndex[ecMerged].Slice() // ecMerged may itself be merged while propagating
+	for _, t3 := range superterms {
 		// !t3.isMeta
-		for _, t4 := range problem.supertermIndex[ecMerged].Slice() {
+		for _, t4 := range superterms {
 			ec3 := t3.eqClass
 			ec4 := t4.eqClass
 			if !ec3.congruent(ec4) && t3.congruent(t4) {
-- 
2.43.0


From 342ad94ed9b46b87ca1a7c39224698252a442da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 27/57] fix: do not read a quoted word as equality, a number or
 a defined word

---
 src/Parser/psyntax.go   | 10 ++++++++++
 src/Parser/tptp_parse.y |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Parser/psyntax.go b/src/Parser/psyntax.go
index ac1228d..92f4ac9 100644
--- a/src/Parser/psyntax.go
+++ b/src/Parser/psyntax.go
@@ -36,6 +36,7 @@ package Parser
 
 import (
 	"slices"
+	"strings"
 
 	"github.com/GoelandProver/Goeland/Lib"
 )
@@ -425,3 +426,12 @@ func PFormulaRoleFromStr(role string) PFormulaRole {
 const (
 	PEqSymbol = "="
 )
+
+// Returns the name that a quoted word stands for. 'cat' is cat, but a word that would be read as something else than a
+// name without its quotes (equality, a defined word, a number or a distinct object) keeps them, as it is not that thing.
+func QuotedWord(word string) string {
+	if word == "" || word == PEqSymbol || strings.ContainsRune("$\"+-0123456789", rune(word[0])) {
+		return "'" + word + "'"
+	}
+	return word
+}
diff --git a/src/Parser/tptp_parse.y b/src/Parser/tptp_parse.y
index 4563360..34cd83b 100644
--- a/src/Parser/tptp_parse.y
+++ b/src/Parser/tptp_parse.y
@@ -566,7 +566,7 @@ name: atomic_word { $$ = $1 }
   ;
 
 atomic_word: LOWER_WORD { $$ = $1 }
-  | SINGLE_QUOTED       { $$ = $1 }
+  | SINGLE_QUOTED       { $$ = QuotedWord($1) }
   ;
 
 atomic_defined_word: DOLLAR_WORD { $$ = $1 }
-- 
2.43.0


From 6d63292bb27014f7f7d52d941ce56f8bd9ac7b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 28/57] fix: keep the elements in Set.Filter and the balance of
 set trees

Filter dropped the result of Add and always returned the empty set;
copies lost the heights of their nodes and a removal could leave a tree
unbalanced.
---
 src/Lib/sets.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Lib/sets.go b/src/Lib/sets.go
index be86e7d..c48dc8d 100644
--- a/src/Lib/sets.go
+++ b/src/Lib/sets.go
@@ -110,7 +110,7 @@ func rebalance[T Ordered](node *Node[T]) *Node[T] {
 	nodeBalance := balance(node)
 
 	if nodeBalance > 1 {
-		if balance(node.left) > 0 {
+		if balance(node.left) >= 0 {
 			// Unbalanced by left child of left child
 			return rotateLeft(node)
 		} else {
@@ -120,7 +120,7 @@ func rebalance[T Ordered](node *Node[T]) *Node[T] {
 		}
 	}
 	if nodeBalance < -1 {
-		if balance(node.right) < 0 {
+		if balance(node.right) <= 0 {
 			// Unbalanced by right child of right child
 			return rotateRight(node)
 		} else {
@@ -236,6 +236,7 @@ func nodeCpy[T Ordered](node *Node[T]) *Node[T] {
 	newNode := mkNode(node.value)
 	newNode.left = nodeCpy(node.left)
 	newNode.right = nodeCpy(node.right)
+	newNode.height = node.height
 
 	return newNode
 }
@@ -322,7 +323,7 @@ func (s Set[T]) Filter(pred Func[T, bool]) Set[T] {
 	res := EmptySet[T]()
 	for _, x := range s.Elements().GetSlice() {
 		if pred(x) {
-			res.Add(x)
+			res = res.Add(x)
 		}
 	}
 	return res
-- 
2.43.0


From 3fab5f83f93d1287be13ea1ba5b111f15e92e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 29/57] fix: remove every equal element, and each element once,
 in lists and sets

RemoveAll skipped the element after a removed one and could run past the
end of the list; NewSet kept the duplicates it was given.
---
 src/Glob/list.go | 9 +++++----
 src/Glob/set.go  | 4 +++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Glob/list.go b/src/Glob/list.go
index bfe1aea..cef00ca 100644
--- a/src/Glob/list.go
+++ b/src/Glob/list.go
@@ -131,12 +131,13 @@ func (list *List[T]) RemoveAll(toRemove T) {
 	list.doAtStart()
 	defer list.doAtEnd()
 
-	for i, value := range list.values {
-		if value.Equals(toRemove) {
-			list.remove(i)
-			i--
+	kept := []T{}
+	for _, value := range list.values {
+		if !value.Equals(toRemove) {
+			kept = append(kept, value)
 		}
 	}
+	list.values = kept
 }
 
 /*
diff --git a/src/Glob/set.go b/src/Glob/set.go
index d4f6c96..33ba176 100644
--- a/src/Glob/set.go
+++ b/src/Glob/set.go
@@ -44,7 +44,9 @@ type Set[T Basic] struct {
 Given a slice, creates a new set with that slice already set and gives its pointer.
 */
 func NewSet[T Basic](slice ...T) *Set[T] {
-	return &Set[T]{NewList[T](slice...)}
+	set := &Set[T]{NewList[T]()}
+	set.Append(slice...)
+	return set
 }
 
 /*
-- 
2.43.0


From b3f286ce7409a37f4b3aaf41a2809b8556b0ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 30/57] fix: compare the third component of triplets

---
 src/Glob/triplet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Glob/triplet.go b/src/Glob/triplet.go
index dc17105..00bd9af 100644
--- a/src/Glob/triplet.go
+++ b/src/Glob/triplet.go
@@ -77,7 +77,7 @@ func (t *triplet[T, U, V]) SetThd(other V) {
 
 func (t *triplet[T, U, V]) Equals(other any) bool {
 	if typed, ok := other.(*triplet[T, U, V]); ok {
-		return t.fst.Equals(typed.fst) && t.snd.Equals(typed.snd) && t.snd.Equals(typed.thd)
+		return t.fst.Equals(typed.fst) && t.snd.Equals(typed.snd) && t.thd.Equals(typed.thd)
 	}
 
 	return false
-- 
2.43.0


From 2e4d0df9b9c445b629e92f96884c58a8aaeaa86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 31/57] fix: compute the unifiers of shared metavariables by
 proper unification

The bindings of the metavariables of the tree and of the formula were put
together with rules that lost some (r(X0,c,X2) and r(X2,X0,X1) gave
{X0->c, X2->c}) and failed on cycles of metavariables (t(X1,X2,X0) and
t(X2,X0,X1)). They are now unified one after the other.
---
 src/Unif/code-trees.go         |   9 --
 src/Unif/substitutions_tree.go | 224 ++++++++++++++-------------------
 2 files changed, 94 insertions(+), 139 deletions(-)

diff --git a/src/Unif/code-trees.go b/src/Unif/code-trees.go
index 6beb337..8f92ac3 100644
--- a/src/Unif/code-trees.go
+++ b/src/Unif/code-trees.go
@@ -138,15 +138,6 @@ func makeCodeTree(forms Lib.List[AST.Form]) *Node {
 	return root
 }
 
-/* Makes a CodeTree from one sequence of instructions. */
-func makeBranch(sequence Sequence) *Node {
-	root := makeNode(nil)
-
-	root.insert(sequence)
-
-	return root
-}
-
 /* Makes a Node from an instruction */
 func makeNode(block CodeBlock) *Node {
 	n := new(Node)
diff --git a/src/Unif/substitutions_tree.go b/src/Unif/substitutions_tree.go
index c4d04ff..892047c 100644
--- a/src/Unif/substitutions_tree.go
+++ b/src/Unif/substitutions_tree.go
@@ -58,7 +58,6 @@ func computeSubstitutions(subs []SubstPair, metasToSubs Substitutions, form AST.
 		}),
 	)
 	metasFromTreeForm := Lib.NewList[AST.Meta]()
-	treeSubs := Substitutions{}
 
 	// Retrieve all the meta of from the tree formula
 	switch typedForm := form.(type) {
@@ -73,6 +72,16 @@ func computeSubstitutions(subs []SubstPair, metasToSubs Substitutions, form AST.
 		return Failure()
 	}
 
+	// Both the metas of the tree and the ones of the formula are bound: the result has to satisfy all these bindings.
+	res := Substitutions{}
+	for _, subst := range metasToSubs {
+		key, value := subst.Get()
+		res = AddUnification(key, value, res)
+		if res.Equals(Failure()) {
+			return res
+		}
+	}
+
 	//  Transform subst tree into a real substitution
 	for _, value := range subs {
 		currentMeta := metasFromTreeForm.At(value.GetIndex())
@@ -86,66 +95,16 @@ func computeSubstitutions(subs []SubstPair, metasToSubs Substitutions, form AST.
 			}),
 		)
 
-		if !currentMeta.Equals(currentValue) {
-			// Si current_meta a déjà une association dans metas
-			metaGet, index := metasToSubs.Get(currentMeta)
-			if HasSubst(metasToSubs, currentMeta) && (index != -1) && !currentValue.Equals(metaGet) {
-				// On cherche a unifier les deux valeurs
-				treeSubs.Set(currentMeta, currentValue)
-				new_unif := AddUnification(currentValue.Copy(), metaGet.Copy(), treeSubs.Copy())
-				if new_unif.Equals(Failure()) {
-					return Failure()
-				} else {
-					treeSubs = new_unif
-					metasToSubs.Remove(index) // Remove from meta
-				}
-			} else { // Ne pas ajouter la susbtitution égalité
-				treeSubs.Set(currentMeta, currentValue)
-			}
+		res = AddUnification(currentMeta, currentValue, res)
+		if res.Equals(Failure()) {
+			return res
 		}
 	}
 
-	debug(
-		Lib.MkLazy(func() string { return fmt.Sprintf("before meta : %v", metasToSubs.ToString()) }),
-	)
-	// Metas_subst eliminate
-	EliminateMeta(&metasToSubs)
-	Eliminate(&metasToSubs)
-	if metasToSubs.Equals(Failure()) {
-		return Failure()
-	}
-	debug(Lib.MkLazy(func() string { return fmt.Sprintf("After meta : %v", metasToSubs.ToString()) }))
-
-	debug(
-		Lib.MkLazy(func() string { return fmt.Sprintf("before tree_subst : %v", treeSubs.ToString()) }),
-	)
-	// Tree subst elminate
-	EliminateMeta(&treeSubs)
-	Eliminate(&treeSubs)
-	if treeSubs.Equals(Failure()) {
-		return Failure()
-	}
-	debug(
-		Lib.MkLazy(func() string { return fmt.Sprintf("after tree_subst : %v", treeSubs.ToString()) }),
-	)
-
-	// Fusion
-	res, _ := MergeSubstitutions(metasToSubs, treeSubs)
-	if res.Equals(Failure()) {
-		return res
-	}
-
 	debug(
 		Lib.MkLazy(func() string { return fmt.Sprintf("after merge : %v", res.ToString()) }),
 	)
 
-	EliminateMeta(&res)
-	Eliminate(&res)
-
-	debug(
-		Lib.MkLazy(func() string { return fmt.Sprintf("after eliminate : %v", res.ToString()) }),
-	)
-
 	return res
 }
 
@@ -172,83 +131,90 @@ func AddUnification(term1, term2 AST.Term, subst Substitutions) Substitutions {
 				subst.ToString())
 		}),
 	)
-	// A term is unified with itself as it is; in particular, nothing is bound to itself.
-	if term1.Equals(term2) {
-		return subst
+	subst = subst.Copy()
+	if subst.Equals(Failure()) || !unifyUnder(term1, term2, &subst) {
+		return Failure()
 	}
 
-	// unify with ct only if the term already has an unification or if there is 2 fun. Just add it and eliminate otherwise.
-	t1v, _ := subst.Get(term1.ToMeta())
-	t2v, _ := subst.Get(term2.ToMeta())
-	if (term1.IsMeta() && HasSubst(subst, term1.ToMeta()) && !t1v.Equals(term2)) ||
-		(term2.IsMeta() && HasSubst(subst, term2.ToMeta()) && !t2v.Equals(term1)) ||
-		(term1.IsFun() && term2.IsFun()) {
-		m := makeMachine()
-		m.meta = subst.Copy()
-		if m.addUnifications(term1, term2) == SUCCESS {
-			return m.meta
-		} else {
-			return Failure()
-		}
-	} else {
-		switch {
-		case term1.IsMeta():
-			subst.Set(term1.ToMeta(), term2)
-			EliminateMeta(&subst)
-			Eliminate(&subst)
-			return subst
-		case term2.IsMeta():
-			subst.Set(term2.ToMeta(), term1)
-			EliminateMeta(&subst)
-			Eliminate(&subst)
-			return subst
-		default:
-			return Failure()
+	Eliminate(&subst)
+	return subst
+}
+
+/* Follows the bindings of a metavariable up to an unbound metavariable or another term. */
+func boundValue(term AST.Term, subst Substitutions) AST.Term {
+	for term.IsMeta() {
+		value, index := subst.Get(term.ToMeta())
+		if index == -1 || value.Equals(term) {
+			break
 		}
+		term = value
 	}
+	return term
 }
 
-/* Adds the unifications found to the meta substitutions from running the algorithm on term1 and term2. */
-func (m *Machine) addUnifications(term1, term2 AST.Term) Status {
-	debug(
-		Lib.MkLazy(func() string {
-			return fmt.Sprintf(
-				"add unification : %v and %v",
-				term1.ToString(),
-				term2.ToString())
-		}),
-	)
-	meta := tryUnification(term1.Copy(), term2.Copy(), m.meta.Copy()) // Return empty or an array of 1 matching substitution, which is m.meta improved wit (term1, term2)
+/* Checks if a metavariable occurs in a term under a substitution. */
+func occursUnder(meta AST.Meta, term AST.Term, subst Substitutions) bool {
+	switch t := boundValue(term, subst).(type) {
+	case AST.Meta:
+		return t.Equals(meta)
+	case AST.Fun:
+		args := getFunctionalArguments(t.GetTyArgs(), t.GetArgs())
+		return args.Any(func(arg AST.Term) bool { return occursUnder(meta, arg, subst) })
+	}
+	return false
+}
 
-	if len(meta) == 0 {
-		return Status(ERROR)
-	} else {
-		m.meta = meta[0].GetSubst()
-		EliminateMeta(&m.meta)
-		Eliminate(&m.meta)
+/* Extends an acyclic substitution with the bindings needed to unify two terms under it. */
+func unifyUnder(term1, term2 AST.Term, subst *Substitutions) bool {
+	term1, term2 = boundValue(term1, *subst), boundValue(term2, *subst)
+
+	if term1.Equals(term2) {
+		return true
 	}
 
-	return Status(SUCCESS)
-}
+	bind := func(meta AST.Meta, term AST.Term) bool {
+		if occursUnder(meta, term, *subst) {
+			return false
+		}
+		*subst = append(*subst, MakeSubstitution(meta, term.Copy()))
+		return true
+	}
 
-/* Tries to unify term1 with term2, depending on the substitutions already found by the parent unification process. */
-func tryUnification(term1, term2 AST.Term, meta Substitutions) []MatchingSubstitutions {
-	debug(
-		Lib.MkLazy(func() string {
-			return fmt.Sprintf(
-				"Try unification : %v and %v",
-				term1.ToString(),
-				term2.ToString())
-		}),
-	)
-	aux := makeMachine()
-	aux.terms = Lib.MkListV(term2)
-	aux.meta = meta
+	switch {
+	case term1.IsMeta():
+		return bind(term1.ToMeta(), term2)
+	case term2.IsMeta():
+		return bind(term2.ToMeta(), term1)
+	}
 
-	// add begin at the start and end at the end !
-	tree := makeBranch(ParseTerm(term1.Copy()))
-	res := aux.unifyAux(*tree)
-	return res
+	fun1, is_fun1 := term1.(AST.Fun)
+	fun2, is_fun2 := term2.(AST.Fun)
+	if !is_fun1 || !is_fun2 || !fun1.GetID().Equals(fun2.GetID()) {
+		return false
+	}
+
+	// The type arguments may have been made into arguments of one of the terms only.
+	args1, args2 := fun1.GetArgs(), fun2.GetArgs()
+	if fun1.GetTyArgs().Len() == fun2.GetTyArgs().Len() {
+		for i, ty := range fun1.GetTyArgs().GetSlice() {
+			if !unifyUnder(AST.TyToTerm(ty), AST.TyToTerm(fun2.GetTyArgs().At(i)), subst) {
+				return false
+			}
+		}
+	} else {
+		args1 = getFunctionalArguments(fun1.GetTyArgs(), args1)
+		args2 = getFunctionalArguments(fun2.GetTyArgs(), args2)
+	}
+
+	if args1.Len() != args2.Len() {
+		return false
+	}
+	for i, arg := range args1.GetSlice() {
+		if !unifyUnder(arg, args2.At(i), subst) {
+			return false
+		}
+	}
+	return true
 }
 
 /* Merge two valid substitutions */
@@ -264,6 +230,10 @@ func MergeSubstitutions(s1, s2 Substitutions) (Substitutions, bool) {
 	res := Substitutions{}
 	same_key := false
 
+	if s1.Equals(Failure()) || s2.Equals(Failure()) {
+		return Failure(), false
+	}
+
 	if s1.IsEmpty() {
 		return s2, false
 	}
@@ -273,20 +243,14 @@ func MergeSubstitutions(s1, s2 Substitutions) (Substitutions, bool) {
 	}
 
 	for _, subst := range s1 {
-		res.Set(subst.Get())
+		s1_k, s1_v := subst.Get()
+		res = AddUnification(s1_k.Copy(), s1_v.Copy(), res)
 	}
 
 	for _, subst := range s2 {
 		s2_k, s2_v := subst.Get()
-		if HasSubst(res, s2_k) {
-			same_key = true
-			res = AddUnification(s2_k.Copy(), s2_v.Copy(), res.Copy())
-		} else {
-			res.Set(s2_k.ToMeta(), s2_v)
-			EliminateMeta(&res)
-			Eliminate(&res)
-		}
-
+		same_key = same_key || HasSubst(res, s2_k)
+		res = AddUnification(s2_k.Copy(), s2_v.Copy(), res)
 	}
 	return res, same_key
 }
-- 
2.43.0


From fb657cfdc750c23d6e08d13aec7b6365802f68d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 32/57] fix: number type metavariables and term metavariables
 together

Unification makes type metavariables into term metavariables, which are
compared by index: one of each with the same index were the same.
---
 src/AST/tptp-native-types.go |  2 --
 src/AST/ty-syntax.go         | 13 +++++--------
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/AST/tptp-native-types.go b/src/AST/tptp-native-types.go
index 320cf3b..3b4b821 100644
--- a/src/AST/tptp-native-types.go
+++ b/src/AST/tptp-native-types.go
@@ -60,8 +60,6 @@ func initTPTPNativeTypes() {
 
 	tIndividual = MkTyConst("$i")
 	tProp = MkTyConst("$o")
-
-	count_meta = 0
 }
 
 func TType() Ty {
diff --git a/src/AST/ty-syntax.go b/src/AST/ty-syntax.go
index 5ea889c..35d8c6c 100644
--- a/src/AST/ty-syntax.go
+++ b/src/AST/ty-syntax.go
@@ -39,15 +39,11 @@ package AST
 
 import (
 	"fmt"
-	"sync"
 
 	"github.com/GoelandProver/Goeland/Glob"
 	"github.com/GoelandProver/Goeland/Lib"
 )
 
-var meta_mut sync.Mutex
-var count_meta int
-
 type TyGenVar interface {
 	isGenVar()
 }
@@ -297,10 +293,11 @@ func MkTyBV(name string, index int) Ty {
 }
 
 func MkTyMeta(name string, formula int) Ty {
-	meta_mut.Lock()
-	meta := TyMeta{name, count_meta, formula}
-	count_meta += 1
-	meta_mut.Unlock()
+	// Type metas are made into term metas when unifying: their indexes should be the ones of no term meta.
+	lock_term.Lock()
+	meta := TyMeta{name, cpt_term, formula}
+	cpt_term += 1
+	lock_term.Unlock()
 	return meta
 }
 
-- 
2.43.0


From 0e03f9f6dd9f800b3f225b21f5c506f533c0136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 33/57] fix: do not modify a conjunction or disjunction in
 place when substituting in it

---
 src/AST/form-list.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/AST/form-list.go b/src/AST/form-list.go
index 4472f74..98dab3b 100644
--- a/src/AST/form-list.go
+++ b/src/AST/form-list.go
@@ -42,10 +42,10 @@ import (
 
 // ex-name: ReplaceMetaByTerm
 func LsSubstByTerm(formulas Lib.List[Form], meta Meta, term Term) Lib.List[Form] {
-	for i, f := range formulas.GetSlice() {
-		formulas.Upd(i, f.ReplaceMetaByTerm(meta, term))
-	}
-	return formulas
+	return Lib.ListMap(
+		formulas,
+		func(f Form) Form { return f.ReplaceMetaByTerm(meta, term) },
+	)
 }
 
 func FlattenAnd(formulas Lib.List[Form]) Lib.List[Form] {
-- 
2.43.0


From 8f66120df85ebc9d1711536031b6812e34b6ad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 34/57] fix: setting a metavariable that a substitution already
 has replaces its value

---
 src/Unif/substitutions_type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unif/substitutions_type.go b/src/Unif/substitutions_type.go
index 7c43b11..2089943 100644
--- a/src/Unif/substitutions_type.go
+++ b/src/Unif/substitutions_type.go
@@ -122,9 +122,9 @@ func (s Substitutions) Copy() Substitutions {
 
 func (s *Substitutions) Set(key AST.Meta, value AST.Term) {
 	found := false
-	for _, subst := range *s {
+	for i, subst := range *s {
 		if subst.Key().Equals(key) {
-			subst.Set(value)
+			(*s)[i].Set(value)
 			found = true
 		}
 	}
-- 
2.43.0


From ceb246880948b3f25da2f1b9fb5d302b53f072d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 35/57] fix: eliminate a metavariable from the type arguments
 as well

---
 src/Unif/substitutions_type.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/Unif/substitutions_type.go b/src/Unif/substitutions_type.go
index 2089943..e9bde59 100644
--- a/src/Unif/substitutions_type.go
+++ b/src/Unif/substitutions_type.go
@@ -313,7 +313,7 @@ func eliminateInside(key AST.Meta, value AST.Term, s Substitutions, has_changed_
 			case AST.Fun:
 				new_value := AST.MakerFun(
 					value_2_type.GetP(),
-					value_2_type.GetTyArgs(),
+					eliminateTypes(key, value, value_2_type.GetTyArgs(), &has_changed),
 					eliminateList(key, value, value_2_type.GetArgs(), &has_changed),
 				)
 				if OccurCheckValid(key_2, new_value) {
@@ -359,7 +359,7 @@ func eliminateList(
 			case AST.Fun: // If its a function, reccursive call for the arguments
 				tempList.Append(AST.MakerFun(
 					lt.GetP(),
-					lt.GetTyArgs(),
+					eliminateTypes(key, value, lt.GetTyArgs(), &hasChanged),
 					eliminateList(key, value, lt.GetArgs(), &hasChanged),
 				))
 			default:
@@ -377,6 +377,26 @@ func eliminateList(
 	return termList
 }
 
+/* Eliminate for a list of types */
+func eliminateTypes(
+	key AST.Meta,
+	value AST.Term,
+	types Lib.List[AST.Ty],
+	hasChanged *bool,
+) Lib.List[AST.Ty] {
+	if types.Empty() || !AST.IsTType(key.GetTy()) {
+		return types
+	}
+
+	res := Lib.ListMap(types, func(ty AST.Ty) AST.Ty {
+		return ty.SubstTy(AST.TyMetaFromMeta(key), AST.TermToTy(value))
+	})
+	if !Lib.ListEquals(res, types) {
+		*hasChanged = true
+	}
+	return res
+}
+
 /* Eliminates one of the subsitution of a pair like (X, Y) (Y, X). It will keep the first one indexed in the map. */
 func EliminateMeta(subst *Substitutions) {
 	debug(
-- 
2.43.0


From 6d0a01e078104a244c94fb50896f1b531e8ff5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 36/57] fix: compare the type arguments of functions in the
 lexicographic path order

---
 src/Mods/equality/bse/lpo.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Mods/equality/bse/lpo.go b/src/Mods/equality/bse/lpo.go
index 864119f..9095455 100644
--- a/src/Mods/equality/bse/lpo.go
+++ b/src/Mods/equality/bse/lpo.go
@@ -193,6 +193,7 @@ func compareFunFun(s, t AST.Fun) compareStruct {
 	debug(
 		Lib.MkLazy(func() string { return "Compare Fun Fun" }),
 	)
+	s, t = typesToArguments(s), typesToArguments(t)
 
 	switch s.GetID().CompareWith(t.GetID()) {
 	case -1:
@@ -208,6 +209,16 @@ func compareFunFun(s, t AST.Fun) compareStruct {
 	return caseDefault(s, t)
 }
 
+/* Terms that differ in their type arguments only are different */
+func typesToArguments(f AST.Fun) AST.Fun {
+	if f.GetTyArgs().Empty() {
+		return f
+	}
+	args := Lib.ListMap(f.GetTyArgs(), AST.TyToTerm)
+	args.Append(f.GetArgs().GetSlice()...)
+	return AST.MakerFun(f.GetID(), Lib.NewList[AST.Ty](), args)
+}
+
 /* Case f < g */
 func caseFLessG(s, t AST.Fun) (bool, compareStruct) {
 	// f < g and f has no argument
-- 
2.43.0


From 0e37125e69680f1821d1e04cd93276d3cab9b3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 37/57] fix: generate a new type Skolem constant at each
 Skolemization

---
 src/Core/skolemisation.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Core/skolemisation.go b/src/Core/skolemisation.go
index e894780..3532493 100644
--- a/src/Core/skolemisation.go
+++ b/src/Core/skolemisation.go
@@ -128,8 +128,9 @@ func realSkolemize(
 	var res AST.Form
 
 	if AST.IsTType(x.GetTy()) {
-		id := AST.MakerId("skoTy")
-		id = AST.MakerId(fmt.Sprintf("skoTy@%d", id.GetIndex()))
+		// The symbol has to be fresh for each Skolemization.
+		id := AST.MakerNewId("skoTy")
+		id = AST.MakerNewId(fmt.Sprintf("skoTy@%d", id.GetIndex()))
 		res = deltaForm.SubstTy(x.ToTyBoundVar(), AST.MkTyConst(id.ToString()))
 	} else {
 		selectedSkolemization, res = selectedSkolemization.Skolemize(
-- 
2.43.0


From 0f3fb2fa56e20341a4960ae9c9b6b79a187d5b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 38/57] fix: replace a metavariable of a term list when it is
 the replaced term

---
 src/AST/formula.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AST/formula.go b/src/AST/formula.go
index 05ceb63..6dac162 100644
--- a/src/AST/formula.go
+++ b/src/AST/formula.go
@@ -97,7 +97,7 @@ func replaceTermInTermList(
 				res = res || r
 			}
 		case Meta:
-			if oldTerm.Equals(newTerm) {
+			if oldTerm.Equals(nf) {
 				newTermList.Upd(i, newTerm)
 				res = true
 			} else {
-- 
2.43.0


From 25833c6434cd801423ec45a1ff3e099063f1978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 39/57] fix: rename in the type of a bound variable the
 variables bound before it only

---
 src/AST/quantifiers.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/AST/quantifiers.go b/src/AST/quantifiers.go
index 6ca58d6..2e47577 100644
--- a/src/AST/quantifiers.go
+++ b/src/AST/quantifiers.go
@@ -167,7 +167,12 @@ func (q quantifier) renameVariables() quantifier {
 	newTyBv := Lib.NewList[Lib.Pair[TyBound, Ty]]()
 	for _, v := range q.GetVarList().GetSlice() {
 		newVar := MakerFreshVar(v.GetName())
-		newVarList.Append(MkTypedVar(newVar.name, newVar.index, v.ty))
+		// The type of a variable only depends on the variables that come before it.
+		renamed := MkTypedVar(newVar.name, newVar.index, v.ty)
+		for _, pair := range newTyBv.GetSlice() {
+			renamed = renamed.SubstTy(pair.Fst, pair.Snd)
+		}
+		newVarList.Append(renamed)
 		f, replaced := newForm.ReplaceTermByTerm(v.ToBoundVar(), newVar)
 		if !replaced {
 			newBv := MkTyBV(newVar.name, newVar.index)
@@ -179,15 +184,7 @@ func (q quantifier) renameVariables() quantifier {
 
 	return makeQuantifier(
 		q.GetIndex(),
-		Lib.ListMap(
-			newVarList,
-			func(p TypedVar) TypedVar {
-				for _, pair := range newTyBv.GetSlice() {
-					p = p.SubstTy(pair.Fst, pair.Snd)
-				}
-				return p
-			},
-		),
+		newVarList,
 		newForm,
 		q.metas.Raw().Copy(),
 		q.symbol,
-- 
2.43.0


From 1a78ac930ffe9d1e5ca75d8df04609ac7c8bbbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 40/57] fix: compare lists of terms without order as multisets

---
 src/AST/term-list.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/AST/term-list.go b/src/AST/term-list.go
index 3ad782e..9ed4774 100644
--- a/src/AST/term-list.go
+++ b/src/AST/term-list.go
@@ -37,8 +37,6 @@
 package AST
 
 import (
-	"sort"
-
 	"github.com/GoelandProver/Goeland/Lib"
 )
 
@@ -118,13 +116,18 @@ func EqualsWithoutOrder(tl, other Lib.List[Term]) bool {
 		return false
 	}
 
-	tlSorted := Lib.ToStrictlyOrderedList(tl.Copy(Term.Copy))
-	sort.Sort(tlSorted)
-
-	otherSorted := Lib.ToStrictlyOrderedList(other.Copy(Term.Copy))
-	sort.Sort(otherSorted)
+	// Sorting would not do, as the terms are only ordered by their head symbols.
+	rest := other.Copy(Term.Copy)
+	for _, term := range tl.GetSlice() {
+		switch i := rest.IndexOf(term, TermEquals).(type) {
+		case Lib.Some[int]:
+			rest = rest.RemoveAt(i.Val)
+		case Lib.None[int]:
+			return false
+		}
+	}
 
-	return Lib.ListEquals(tlSorted.List(), otherSorted.List())
+	return true
 }
 
 /* check if two lists of var are equals */
-- 
2.43.0


From 7097217a7630c290ed47d14fc2d7f1fbc305fb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 41/57] fix: quote every name that needs it under -quoted_pred

---
 src/AST/modular-printing.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/AST/modular-printing.go b/src/AST/modular-printing.go
index cc3c69a..93ceb9f 100644
--- a/src/AST/modular-printing.go
+++ b/src/AST/modular-printing.go
@@ -53,7 +53,7 @@ package AST
 
 import (
 	"fmt"
-	"unicode"
+	"strings"
 	"unicode/utf8"
 
 	"github.com/GoelandProver/Goeland/Glob"
@@ -341,8 +341,7 @@ func initPrinters() {
 	QuoteID = PrinterAction{
 		genericAction: PrinterIdentity,
 		actionOnId: func(i Id) string {
-			r, _ := utf8.DecodeRuneInString(i.name)
-			if unicode.IsUpper(r) {
+			if needsQuotes(i.name) {
 				return fmt.Sprintf("'%s'", i.name)
 			}
 			return i.name
@@ -354,6 +353,18 @@ func initPrinters() {
 	}
 }
 
+// Only the names made of a lowercase letter followed by letters, digits and underscores are TPTP words. Numbers, defined
+// words, distinct objects, names that already have their quotes and equality are left as they are.
+func needsQuotes(name string) bool {
+	r, _ := utf8.DecodeRuneInString(name)
+	if name == "" || name == Id_eq.name || strings.ContainsRune("$\"'+-0123456789", r) {
+		return false
+	}
+	return r < 'a' || r > 'z' || strings.ContainsFunc(name, func(c rune) bool {
+		return c != '_' && (c < '0' || c > '9') && (c < 'a' || c > 'z') && (c < 'A' || c > 'Z')
+	})
+}
+
 func ComposePrinter(p PrinterAction) {
 	printer.PrinterAction = printer.Compose(p)
 }
-- 
2.43.0


From 86b01b96817d809fbc02fbcb4fdfe0b7b1710136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 42/57] fix: forget the bound variables when the elaboration
 leaves their quantifier

---
 src/Engine/syntax-translation.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Engine/syntax-translation.go b/src/Engine/syntax-translation.go
index 7cc550f..abb6dcd 100644
--- a/src/Engine/syntax-translation.go
+++ b/src/Engine/syntax-translation.go
@@ -235,7 +235,7 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 			if !vars.Empty() {
 				form = AST.MakerAll(vars, form)
 			}
-			return new_con, form, b
+			return leaveScope(con, new_con, len(pform.Vars())), form, b
 
 		case Parser.PQuantEx:
 			if vars.Any(func(v AST.TypedVar) bool { return AST.IsTType(v.GetTy()) }) {
@@ -254,7 +254,7 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 			if !vars.Empty() {
 				form = AST.MakerEx(vars, form)
 			}
-			return new_con, form, b
+			return leaveScope(con, new_con, len(pform.Vars())), form, b
 		}
 	}
 	Glob.Anomaly(
@@ -264,6 +264,12 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 	return con, nil, false
 }
 
+// The bound variables are only known inside of the formula, what has been added to the context after them is kept.
+func leaveScope(before, after Context, bound int) Context {
+	con := append(Context{}, before...)
+	return append(con, after[len(before)+bound:]...)
+}
+
 func maybeFlattenOr(con Context, f Parser.PBin, source_form Parser.PForm) (Context, AST.Form, bool) {
 	return maybeFlattenBin(
 		con, f, source_form,
-- 
2.43.0


From 998dc3fb4b7d9db28e833924faf36a621c08fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 43/57] fix: read a number that is followed by a comment

---
 src/Parser/tptp_lex.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 113dd6d..1368f05 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -742,7 +742,12 @@ func (lexer *TPTPLex) unsignedRational(yylval *TPTPSymType) bool {
 
 	yylval.str += "/"
 	lexer.advance()
-	return lexer.positiveDecimal(yylval)
+	if !lexer.positiveDecimal(yylval) { // for instance, a comment follows the number
+		lexer.remove(len(yylval.str) - pos)
+		yylval.str = yylval.str[:pos]
+		return false
+	}
+	return true
 }
 
 // %----Character classes
-- 
2.43.0


From 33ce287a46723764c4691029b41b59801e20edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 44/57] fix: read the keywords as ordinary names inside of a
 statement

---
 src/Parser/tptp_lex.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 1368f05..861c894 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -44,6 +44,8 @@ type TPTPLex struct {
 	s   string
 	pos int
 	c   rune
+	// The keywords are ordinary words anywhere else than at the beginning of a statement.
+	insideStatement bool
 }
 
 const (
@@ -157,20 +159,18 @@ func (lexer *TPTPLex) isKeyword() (int, bool) {
 		lexer.advance()
 	}
 
-	// Special case
+	// Special cases
+	if len(word) == 0 {
+		return FAILURE_TOKEN, false
+	}
 	if len(word) == 1 {
 		lexer.remove(1)
 		return FAILURE_TOKEN, false
 	}
 
-	// We're at '(', so we need to remove 2 to the counter for the next char to be '('
+	// We're after the word, so we need to remove 1 to the counter for the next char to be the one after the word
 	lexer.remove(1)
 
-	if !lexer.checkNext('(') {
-		lexer.remove(len(word) - 1)
-		return FAILURE_TOKEN, false
-	}
-
 	lexMap := map[string]int{
 		"fof":     FOF,
 		"cnf":     CNF,
@@ -297,7 +297,11 @@ func (lexer *TPTPLex) isPredicate() (int, bool) {
 }
 
 func (lexer *TPTPLex) SyntacticLex() int {
+	startsStatement := !lexer.insideStatement
+	lexer.insideStatement = true
+
 	if token, isPunctation := lexer.isPunctuation(); isPunctation {
+		lexer.insideStatement = token != DOT
 		return token
 	}
 
@@ -305,8 +309,10 @@ func (lexer *TPTPLex) SyntacticLex() int {
 		return token
 	}
 
-	if token, isKeyword := lexer.isKeyword(); isKeyword {
-		return token
+	if startsStatement {
+		if token, isKeyword := lexer.isKeyword(); isKeyword {
+			return token
+		}
 	}
 
 	if token, isPredicate := lexer.isPredicate(); isPredicate {
-- 
2.43.0


From 08f48fe0411534936365bf76266bedb4180d6588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:05 +0000
Subject: [PATCH 45/57] fix: reject a quoted word with an unknown escaped
 character

---
 src/Parser/tptp_lex.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 861c894..48fe5ea 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -365,9 +365,10 @@ func (lexer *TPTPLex) singleQuoted(yylval *TPTPSymType) {
 	for lexer.isSqChar() || lexer.c == '\\' {
 		if lexer.c == '\\' {
 			lexer.advance()
-			if lexer.c == '\\' || lexer.c == '\'' {
-				word += "\\" + string(lexer.c)
+			if lexer.c != '\\' && lexer.c != '\'' {
+				lexer.Error(fmt.Sprintf("unexpected escaped character %q", lexer.c))
 			}
+			word += "\\" + string(lexer.c)
 		} else {
 			word += string(lexer.c)
 		}
@@ -381,9 +382,10 @@ func (lexer *TPTPLex) distinctObject(yylval *TPTPSymType) {
 	for lexer.isDoChar() || lexer.c == '\\' {
 		if lexer.c == '\\' {
 			lexer.advance()
-			if lexer.c == '\\' || lexer.c == '"' {
-				word += "\\" + string(lexer.c)
+			if lexer.c != '\\' && lexer.c != '"' {
+				lexer.Error(fmt.Sprintf("unexpected escaped character %q", lexer.c))
 			}
+			word += "\\" + string(lexer.c)
 		} else {
 			word += string(lexer.c)
 		}
-- 
2.43.0


From ab4bf7b7f7a9e8642877fc21bea7bc539ee16b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 46/57] fix: reject the type of a variable outside of its
 quantifier

---
 src/Parser/tptp_parse.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Parser/tptp_parse.y b/src/Parser/tptp_parse.y
index 34cd83b..3f225a1 100644
--- a/src/Parser/tptp_parse.y
+++ b/src/Parser/tptp_parse.y
@@ -288,7 +288,7 @@ tff_defined_plain_term: defined_constant { $$ = MkFunConst($1) }
   ;
 
 tff_term: tff_function_term { $$ = $1 }
-  | tff_variable { $$ = PVar{$1.Fst} }
+  | variable { $$ = PVar{$1} }
   ;
 
 tff_function_term: tff_plain_term { $$ = $1 }
-- 
2.43.0


From 65a086e8b7b8db6613801e36938b005c26fe2e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 47/57] fix: do not share the typing context between the
 subformulas

---
 src/Typing/env-and-context.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Typing/env-and-context.go b/src/Typing/env-and-context.go
index d46d261..a6a2438 100644
--- a/src/Typing/env-and-context.go
+++ b/src/Typing/env-and-context.go
@@ -87,6 +87,8 @@ func (con Con) contains(name string, ty AST.Ty) bool {
 }
 
 func (con Con) addTypedVars(typed_vars Lib.List[AST.TypedVar]) Con {
+	// Adding to a set may reorganise it in place, and the context is shared with the other subformulas.
+	con = con.Copy()
 	for _, tv := range typed_vars.GetSlice() {
 		con = con.add(tv.GetName(), tv.GetTy())
 	}
-- 
2.43.0


From c534dc85ef45bf756a307e100f3fbf95053dd879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 48/57] fix: type-check the polymorphic constants

---
 src/AST/ty-syntax.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/AST/ty-syntax.go b/src/AST/ty-syntax.go
index 35d8c6c..d0dde1e 100644
--- a/src/AST/ty-syntax.go
+++ b/src/AST/ty-syntax.go
@@ -418,7 +418,7 @@ func instantiateTyRec(ty, source Ty, instance map[string]Ty) Ty {
 
 func GetArgsTy(ty Ty) Lib.List[Ty] {
 	switch rty := ty.(type) {
-	case TyConstr:
+	case TyConstr, TyBound:
 		return Lib.NewList[Ty]()
 	case TyFunc:
 		switch nty := rty.in.(type) {
@@ -437,8 +437,8 @@ func GetArgsTy(ty Ty) Lib.List[Ty] {
 
 func GetOutTy(ty Ty) Ty {
 	switch rty := ty.(type) {
-	case TyConstr:
-		return tType
+	case TyConstr, TyBound:
+		return ty
 	case TyFunc:
 		return rty.out
 	}
-- 
2.43.0


From c968598372ec743e74a80491317a6e367003de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 49/57] fix: check the type of a term or atom against the one
 expected at its place

---
 src/Typing/rules.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Typing/rules.go b/src/Typing/rules.go
index 96c0e16..f21a889 100644
--- a/src/Typing/rules.go
+++ b/src/Typing/rules.go
@@ -66,6 +66,7 @@ func typecheckForm(con Con, form AST.Form) bool {
 			f.GetID().GetName(),
 			f.GetTyArgs(),
 			f.GetArgs(),
+			AST.TProp(),
 			Lib.MkLazy(func() string { return form.ToString() }),
 		)
 
@@ -133,6 +134,7 @@ func typecheckTerm(con Con, term AST.Term, ty AST.Ty) bool {
 			t.GetID().GetName(),
 			t.GetTyArgs(),
 			t.GetArgs(),
+			ty,
 			Lib.MkLazy(func() string { return t.ToString() }),
 		)
 	}
@@ -216,6 +218,7 @@ func checkFunctional(
 	name string,
 	tys Lib.List[AST.Ty],
 	args Lib.List[AST.Term],
+	expected AST.Ty,
 	debug_str Lib.Lazy[string],
 ) bool {
 	oty := QueryEnvInstance(name, tys)
@@ -237,7 +240,16 @@ func checkFunctional(
 			args,
 			instantiated_ty,
 		)
-		tys.Append(AST.GetOutTy(ty.Val))
+		out_ty := AST.GetOutTy(ty.Val)
+		if !out_ty.Equals(expected) {
+			Glob.Fatal(
+				label,
+				fmt.Sprintf("%s has type %s but is used with type %s",
+					debug_str.Run(), out_ty.ToString(), expected.ToString()),
+			)
+			return false
+		}
+		tys.Append(out_ty)
 
 		return typecheckRec(con, Lib.NewList[AST.Form](), terms_checker, tys)
 
-- 
2.43.0


From 8f9e1d33dae613377a3932d1a9688f6b1072f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 50/57] fix: reject a constant or function used as a type

---
 src/Typing/rules.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Typing/rules.go b/src/Typing/rules.go
index f21a889..627b3d6 100644
--- a/src/Typing/rules.go
+++ b/src/Typing/rules.go
@@ -173,6 +173,12 @@ func typecheckType(con Con, ty AST.Ty) bool {
 
 		switch rty := oty.(type) {
 		case Lib.Some[AST.Ty]:
+			_, is_polymorphic := rty.Val.(AST.TyPi)
+			if is_polymorphic || !AST.IsTType(AST.GetOutTy(rty.Val)) {
+				Glob.Fatal(label, fmt.Sprintf("%s is not a type", nty.ToString()))
+				return false
+			}
+
 			args := AST.GetArgsTy(rty.Val)
 			if args.Len() != nty.Args().Len() {
 				Glob.Fatal(
-- 
2.43.0


From b56a17eac7e49411e892819b25fc84a8280ec1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 51/57] fix: check the types of the bound variables

---
 src/Typing/rules.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Typing/rules.go b/src/Typing/rules.go
index 627b3d6..3c36935 100644
--- a/src/Typing/rules.go
+++ b/src/Typing/rules.go
@@ -83,7 +83,7 @@ func typecheckForm(con Con, form AST.Form) bool {
 			con.addTypedVars(f.GetVarList()),
 			Lib.MkListV(f.GetForm()),
 			Lib.NewList[Lib.Pair[AST.Term, AST.Ty]](),
-			Lib.NewList[AST.Ty](),
+			typesOf(f.GetVarList()),
 		)
 
 	case AST.Ex:
@@ -91,7 +91,7 @@ func typecheckForm(con Con, form AST.Form) bool {
 			con.addTypedVars(f.GetVarList()),
 			Lib.MkListV(f.GetForm()),
 			Lib.NewList[Lib.Pair[AST.Term, AST.Ty]](),
-			Lib.NewList[AST.Ty](),
+			typesOf(f.GetVarList()),
 		)
 	}
 
@@ -102,6 +102,17 @@ func typecheckForm(con Con, form AST.Form) bool {
 	return false
 }
 
+// The types of the term variables among the bound variables.
+func typesOf(typed_vars Lib.List[AST.TypedVar]) Lib.List[AST.Ty] {
+	tys := Lib.NewList[AST.Ty]()
+	for _, tv := range typed_vars.GetSlice() {
+		if !AST.IsTType(tv.GetTy()) {
+			tys.Append(tv.GetTy())
+		}
+	}
+	return tys
+}
+
 func typecheckTerm(con Con, term AST.Term, ty AST.Ty) bool {
 	debug(Lib.MkLazy(func() string {
 		return fmt.Sprintf("Trying to type-check: %s |- %s : %s", con.toString(), term.ToString(), ty.ToString())
-- 
2.43.0


From e0b4aaeb0c9d9ecc7def67d905429df8c17608eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 52/57] fix: accept a type metavariable as the type of an
 argument

---
 src/AST/ty-syntax.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/AST/ty-syntax.go b/src/AST/ty-syntax.go
index d0dde1e..8a783cf 100644
--- a/src/AST/ty-syntax.go
+++ b/src/AST/ty-syntax.go
@@ -418,11 +418,11 @@ func instantiateTyRec(ty, source Ty, instance map[string]Ty) Ty {
 
 func GetArgsTy(ty Ty) Lib.List[Ty] {
 	switch rty := ty.(type) {
-	case TyConstr, TyBound:
+	case TyConstr, TyBound, TyMeta:
 		return Lib.NewList[Ty]()
 	case TyFunc:
 		switch nty := rty.in.(type) {
-		case TyBound, TyConstr:
+		case TyBound, TyConstr, TyMeta:
 			return Lib.MkListV(rty.in)
 		case TyProd:
 			return nty.args
@@ -437,7 +437,7 @@ func GetArgsTy(ty Ty) Lib.List[Ty] {
 
 func GetOutTy(ty Ty) Ty {
 	switch rty := ty.(type) {
-	case TyConstr, TyBound:
+	case TyConstr, TyBound, TyMeta:
 		return ty
 	case TyFunc:
 		return rty.out
-- 
2.43.0


From 6c4f1b15d4bd6854d3c4b20e32df8084bc9dbebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 53/57] fix: keep the arguments of a type argument below an
 equality

---
 src/Engine/syntax-translation.go | 20 ++++++++++++--------
 src/Parser/psyntax.go            |  4 ++++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/Engine/syntax-translation.go b/src/Engine/syntax-translation.go
index abb6dcd..5a6d223 100644
--- a/src/Engine/syntax-translation.go
+++ b/src/Engine/syntax-translation.go
@@ -497,6 +497,17 @@ func flattenProd(ty AST.Ty) []AST.Ty {
 	return []AST.Ty{ty}
 }
 
+func typeToParserTerm(ty AST.Ty) Parser.PTerm {
+	switch t := ty.(type) {
+	case AST.TyConstr:
+		return Parser.MkFun(t.Symbol(), Lib.ListMap(t.Args(), typeToParserTerm).GetSlice())
+	case AST.TyBound:
+		return Parser.MkVar(t.GetName())
+	}
+	Glob.Anomaly(elab_label, "Found an unexpected type parameter in defined type")
+	return nil
+}
+
 func elaborateDefinedFunctionals(
 	con Context,
 	name string,
@@ -524,14 +535,7 @@ func elaborateDefinedFunctionals(
 		case AST.Fun:
 			ty = lookupInContext(con, term.GetName())
 			for _, ty := range term.GetTyArgs().GetSlice() {
-				switch t := ty.(type) {
-				case AST.TyConstr:
-					ty_args.Append(Parser.MkFunConst(t.Symbol()))
-				case AST.TyBound:
-					ty_args.Append(Parser.MkVar(t.GetName()))
-				default:
-					Glob.Anomaly(elab_label, "Found non-constant type parameter in defined type")
-				}
+				ty_args.Append(typeToParserTerm(ty))
 			}
 		case AST.Var:
 			ty = lookupInContext(con, term.GetName())
diff --git a/src/Parser/psyntax.go b/src/Parser/psyntax.go
index 92f4ac9..8e0e532 100644
--- a/src/Parser/psyntax.go
+++ b/src/Parser/psyntax.go
@@ -210,6 +210,10 @@ func MkFunConst(symbol string) PTerm {
 	return PFun{symbol, []PTerm{}, Lib.MkNone[PTypeFun]()}
 }
 
+func MkFun(symbol string, args []PTerm) PTerm {
+	return PFun{symbol, args, Lib.MkNone[PTypeFun]()}
+}
+
 func MkDefinedConst(symbol string, definedType PTypeFun) PTerm {
 	return PFun{symbol, []PTerm{}, Lib.MkSome(definedType)}
 }
-- 
2.43.0


From 5d36a1edff2f44adbc7d56d343b2d3a508e9cd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 54/57] fix: mix the types of numbers as before

---
 src/Typing/rules.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Typing/rules.go b/src/Typing/rules.go
index 3c36935..7757297 100644
--- a/src/Typing/rules.go
+++ b/src/Typing/rules.go
@@ -258,7 +258,7 @@ func checkFunctional(
 			instantiated_ty,
 		)
 		out_ty := AST.GetOutTy(ty.Val)
-		if !out_ty.Equals(expected) {
+		if !out_ty.Equals(expected) && !(isNumberType(out_ty) && isNumberType(expected)) {
 			Glob.Fatal(
 				label,
 				fmt.Sprintf("%s has type %s but is used with type %s",
@@ -279,6 +279,11 @@ func checkFunctional(
 	return false
 }
 
+// The types of numbers may be mixed, e.g., the quotient of two integers (a rational) may be compared with an integer.
+func isNumberType(ty AST.Ty) bool {
+	return ty.Equals(AST.TInt()) || ty.Equals(AST.TRat()) || ty.Equals(AST.TReal())
+}
+
 func typecheckRec(
 	con Con,
 	forms Lib.List[AST.Form],
-- 
2.43.0


From 744ee52a6c0e4235c001b77b7393d404e8062be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 55/57] fix: reject a polymorphic symbol without its type
 arguments

---
 src/Engine/pretyper.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Engine/pretyper.go b/src/Engine/pretyper.go
index 16386a8..cb72ee0 100644
--- a/src/Engine/pretyper.go
+++ b/src/Engine/pretyper.go
@@ -191,6 +191,13 @@ func instantiateType(ty Parser.PType, lookupName string, args []Parser.PTerm) Pa
 		return nty.Right()
 
 	case Parser.PTypeQuant:
+		if len(args) < len(nty.Vars()) {
+			Glob.Fatal(
+				elab_label,
+				fmt.Sprintf("%s expects %d type arguments, got %d arguments", lookupName, len(nty.Vars()), len(args)),
+			)
+		}
+
 		type_args := map[string]Parser.PType{}
 		for i, v := range nty.Vars() {
 			type_args[v.Fst] = parserTermToType(args[i])
-- 
2.43.0


From 9bd3eb581c6fc2c90cd42e5e06f21445b635ef96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:07 +0000
Subject: [PATCH 56/57] fix: type-check the axioms used as rewrite rules

---
 src/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.go b/src/main.go
index d438882..805cfce 100644
--- a/src/main.go
+++ b/src/main.go
@@ -175,6 +175,9 @@ func presearchLoader() (AST.Form, int) {
 	}
 
 	if is_typed_problem || is_typed_include {
+		for _, axiom := range rewritten_axioms.GetSlice() {
+			checkForTypedProof(axiom)
+		}
 		checkForTypedProof(form)
 	}
 
@@ -358,6 +361,9 @@ func selectStatements(
 	return statements
 }
 
+// The axioms that are not part of the formula because they are used as rewrite rules.
+var rewritten_axioms = Lib.NewList[AST.Form]()
+
 func doAxiomStatement(andList Lib.List[AST.Form], f AST.Form) Lib.List[AST.Form] {
 	newForm := f.RenameVariables()
 
@@ -376,6 +382,7 @@ func doAxiomStatement(andList Lib.List[AST.Form], f AST.Form) Lib.List[AST.Form]
 		return andList
 	}
 
+	rewritten_axioms.Append(newForm)
 	return andList
 }
 
-- 
2.43.0


From 451b0410202fd0dda7f32f669593e40728f2a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 57/57] fix: apply the substitutions of types in the equality
 problems

---
 src/Core/substitutions_search.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Core/substitutions_search.go b/src/Core/substitutions_search.go
index d49c96c..fac9ccf 100644
--- a/src/Core/substitutions_search.go
+++ b/src/Core/substitutions_search.go
@@ -237,9 +237,15 @@ func ApplySubstitutionOnTerm(old_symbol AST.Meta, new_symbol, t AST.Term) AST.Te
 			res = new_symbol.Copy()
 		}
 	case AST.Fun:
+		ty_args := nf.GetTyArgs()
+		if AST.IsTType(old_symbol.GetTy()) {
+			ty_args = Lib.ListMap(ty_args, func(ty AST.Ty) AST.Ty {
+				return ty.SubstTy(AST.TyMetaFromMeta(old_symbol), AST.TermToTy(new_symbol))
+			})
+		}
 		res = AST.MakerFun(
 			nf.GetP(),
-			nf.GetTyArgs(),
+			ty_args,
 			ApplySubstitutionOnTermList(old_symbol, new_symbol, nf.GetArgs()),
 		)
 	}
-- 
2.43.0

