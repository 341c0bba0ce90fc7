From e43840cd206d9344f711f12e00d90c5bb3d06781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 001/218] fix: byte remainder no longer moves %ah to a register
 that needs REX

---
 6/isel.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index 0000424..0641167 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -951,8 +951,11 @@ selexpr(Isel *s, Node *n)
 			d = coreg(Reax, mode(n));
 		else if (r->mode != ModeB)
 			d = coreg(Redx, mode(n));
-		else
-			d = locphysreg(Rah);
+		else {
+			/* %ah can't be moved to a register that needs a REX prefix */
+			d = locphysreg(Ral);
+			g(s, Imov, locphysreg(Rah), d, NULL);
+		}
 		g(s, Imov, d, r, NULL);
 		break;
 	case Oneg:
-- 
2.43.0


From 999cc12e5e5484348c5a59f07abe86969c9e4e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 002/218] fix: decide arithmetic or logical right shift by the
 type of the shifted operand

---
 6/isel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/6/isel.c b/6/isel.c
index 0641167..5fd6d37 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -998,7 +998,7 @@ selexpr(Isel *s, Node *n)
 			d = cl;
 		}
 		if (exprop(n) == Obsr) {
-			if (istysigned(n->expr.type))
+			if (istysigned(exprtype(args[0])))
 				g(s, Isar, d, a, NULL);
 			else
 				g(s, Ishr, d, a, NULL);
-- 
2.43.0


From 6c276f4be44b295ea14813895bb10671ed1fb003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 003/218] fix: evaluate all call arguments before placing any
 in its register

---
 6/isel.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index 5fd6d37..ce4e6e4 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -640,7 +640,7 @@ plus8(Isel *s, Loc *base)
 static void
 gencall(Isel *s, Node *n)
 {
-	Loc *arg;	/* values we reduced */
+	Loc *arg, **argval;	/* values we reduced */
 	size_t argsz, argoff, nargs, falseargs, vasplit;
 	size_t nfloats, nints;
 	Loc *retloc1, *retloc2, *rsp;	/* hard-coded registers */
@@ -736,13 +736,20 @@ gencall(Isel *s, Node *n)
 	if (argsz)
 		g(s, Isub, stkbump, rsp, NULL);
 
-	/* Now, we can evaluate the arguments */
+	/*
+	 * Now, we can evaluate the arguments. All of them are evaluated before
+	 * any is put into place, since evaluating some operations (division,
+	 * shifts, byte multiplication) clobbers argument registers.
+	 */
+	argval = xalloc(nargs * sizeof(Loc *));
+	for (i = 0; i < nargs; i++)
+		argval[i] = selexpr(s, args[i]);
 	argoff = 0;
 	nfloats = 0;
 	nints = 0;
 	vararg = 0;
 	for (i = 0; i < nargs; i++) {
-		arg = selexpr(s, args[i]);
+		arg = argval[i];
 		t = exprtype(args[i]);
 		argoff = alignto(argoff, t);
 		ArgType a = ArgBig;
@@ -792,6 +799,7 @@ gencall(Isel *s, Node *n)
 		}
 
 	}
+	free(argval);
 	call(s, n);
 	if (argsz)
 		g(s, Iadd, stkbump, rsp, NULL);
-- 
2.43.0


From 68b84bb4550486740d4eb0f1c7ee178b46f93e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 004/218] fix: fold constants at the width and signedness of
 their type

---
 parse/fold.c | 118 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 100 insertions(+), 18 deletions(-)

diff --git a/parse/fold.c b/parse/fold.c
index 4094c49..7251596 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -33,12 +33,73 @@ getintlit(Node *n, vlong *v)
 	return 1;
 }
 
+
+/* reduces a value to the width and signedness of type t */
+static vlong
+wrapval(vlong v, Type *t)
+{
+	switch (tybase(t)->type) {
+	case Tyint8:	return (int8_t)v;
+	case Tyint16:	return (int16_t)v;
+	case Tyint:
+	case Tyint32:	return (int32_t)v;
+	case Tybool:
+	case Tybyte:
+	case Tyuint8:	return (uint8_t)v;
+	case Tyuint16:	return (uint16_t)v;
+	case Tychar:
+	case Tyuint:
+	case Tyuint32:	return (uint32_t)v;
+	default:	return v;
+	}
+}
+
+static int
+isunsigned(Type *t)
+{
+	switch (tybase(t)->type) {
+	case Tybool: case Tybyte: case Tychar: case Typtr:
+	case Tyuint8: case Tyuint16: case Tyuint: case Tyuint32: case Tyuint64:
+		return 1;
+	default:
+		return 0;
+	}
+}
+
+/* width of an integer type, or 0 if it is not known (yet) */
+static int
+valbits(Type *t)
+{
+	switch (tybase(t)->type) {
+	case Tybool: case Tybyte: case Tyint8: case Tyuint8:
+		return 8;
+	case Tyint16: case Tyuint16:
+		return 16;
+	case Tychar: case Tyint: case Tyint32: case Tyuint: case Tyuint32:
+		return 32;
+	case Tyint64: case Tyuint64:
+		return 64;
+	default:
+		return 0;
+	}
+}
+
+/* getintlit, with the value reduced to the type of the literal */
+static int
+getintval(Node *n, vlong *v)
+{
+	if (!getintlit(n, v))
+		return 0;
+	*v = wrapval(*v, exprtype(n));
+	return 1;
+}
+
 static int
 isintval(Node *n, vlong val)
 {
 	vlong v;
 
-	if (!getintlit(n, &v))
+	if (!getintval(n, &v))
 		return 0;
 	return v == val;
 }
@@ -48,7 +109,7 @@ val(Srcloc loc, vlong val, Type *t)
 {
 	Node *l, *n;
 
-	l = mkint(loc, val);
+	l = mkint(loc, wrapval(val, t));
 	n = mkexpr(loc, Olit, l, NULL);
 	l->lit.type = t;
 	n->expr.type = t;
@@ -75,6 +136,7 @@ foldcast(Node *n)
 {
 	Type *to, *from;
 	Node *sub;
+	vlong v;
 
 	sub = n->expr.args[0];
 	to = exprtype(n);
@@ -92,7 +154,9 @@ foldcast(Node *n)
 		case Tyuint8: case Tyuint16: case Tyuint32: case Tyuint64:
 		case Tyint: case Tyuint: case Tychar: case Tybyte:
 		case Typtr:
-			if (exprop(sub) == Olit || tybase(from)->type == tybase(to)->type) {
+			if (getintval(sub, &v)) {
+				return val(n->loc, v, to);
+			} else if (exprop(sub) == Olit || tybase(from)->type == tybase(to)->type) {
 				sub->expr.type = to;
 				return sub;
 			} else {
@@ -134,6 +198,7 @@ fold(Node *n, int foldvar)
 	Node **args, *r;
 	Type *t;
 	vlong a, b;
+	int w;
 	Ucon *uc;
 	size_t i;
 
@@ -171,14 +236,14 @@ fold(Node *n, int foldvar)
 		if (isintval(args[1], 0))
 			r = args[0];
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a + b, exprtype(n));
+			r = val(n->loc, (uvlong)a + (uvlong)b, exprtype(n));
 		break;
 	case Osub:
 		/* x - 0 = 0 */
 		if (isintval(args[1], 0))
 			r = args[0];
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, (uint64_t)a - b, exprtype(n));
+			r = val(n->loc, (uvlong)a - (uvlong)b, exprtype(n));
 		break;
 	case Omul:
 		/* 1 * x = x */
@@ -192,7 +257,7 @@ fold(Node *n, int foldvar)
 		if (isintval(args[1], 0))
 			r = args[1];
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a * b, exprtype(n));
+			r = val(n->loc, (uvlong)a * (uvlong)b, exprtype(n));
 		break;
 	case Odiv:
 		/* x/0 = error */
@@ -201,11 +266,14 @@ fold(Node *n, int foldvar)
 		/* x/1 = x */
 		if (isintval(args[1], 1))
 			r = args[0];
-		/* 0/x = 0 */
-		if (isintval(args[1], 0))
-			r = args[1];
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a / b, exprtype(n));
+		if (getintval(args[0], &a) && getintval(args[1], &b)) {
+			if (isunsigned(exprtype(n)))
+				r = val(n->loc, (uvlong)a / (uvlong)b, exprtype(n));
+			else if (b == -1)
+				r = val(n->loc, 0 - (uvlong)a, exprtype(n));
+			else
+				r = val(n->loc, a / b, exprtype(n));
+		}
 		break;
 	case Omod:
 		/* x%0 = error */
@@ -214,20 +282,34 @@ fold(Node *n, int foldvar)
 		/* x%1 = 0 */
 		if (isintval(args[1], 1))
 			r = val(n->loc, 0, exprtype(n));
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a % b, exprtype(n));
+		if (getintval(args[0], &a) && getintval(args[1], &b)) {
+			if (isunsigned(exprtype(n)))
+				r = val(n->loc, (uvlong)a % (uvlong)b, exprtype(n));
+			else if (b == -1)
+				r = val(n->loc, 0, exprtype(n));
+			else
+				r = val(n->loc, a % b, exprtype(n));
+		}
 		break;
 	case Oneg:
 		if (getintlit(args[0], &a))
-			r = val(n->loc, -a, exprtype(n));
+			r = val(n->loc, 0 - (uvlong)a, exprtype(n));
 		break;
 	case Obsl:
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, (uint64_t)a << b, exprtype(n));
+		w = valbits(exprtype(n));
+		if (getintval(args[0], &a) && getintval(args[1], &b))
+			if (b >= 0 && b < (w ? w : 64))
+				r = val(n->loc, (uvlong)a << b, exprtype(n));
 		break;
 	case Obsr:
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a >> b, exprtype(n));
+		w = valbits(exprtype(n));
+		if (getintval(args[0], &a) && getintval(args[1], &b))
+			if (b >= 0 && b < (w ? w : 64)) {
+				if (isunsigned(exprtype(n)))
+					r = val(n->loc, (uvlong)a >> b, exprtype(n));
+				else
+					r = val(n->loc, a >> b, exprtype(n));
+			}
 		break;
 	case Obor:
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-- 
2.43.0


From dda87ed1802f3e6b7533e53522b78dc5427f5d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 005/218] fix: do not fold away operands that have side effects

---
 parse/fold.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/parse/fold.c b/parse/fold.c
index 7251596..6f61a3b 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -104,6 +104,32 @@ isintval(Node *n, vlong val)
 	return v == val;
 }
 
+/* can evaluating n be skipped without anyone noticing? */
+static int
+iseffectfree(Node *n)
+{
+	size_t i;
+
+	if (n->type != Nexpr)
+		return 1;
+	switch (exprop(n)) {
+	case Ovar: case Ogap: case Omemb: case Otupmemb: case Osize: case Ocast:
+	case Oadd: case Osub: case Omul: case Oneg:
+	case Obor: case Oband: case Obxor: case Obsl: case Obsr: case Obnot:
+	case Olor: case Oland: case Olnot:
+	case Oeq: case One: case Ogt: case Oge: case Olt: case Ole:
+		break;
+	case Olit:
+		return 1;
+	default:
+		return 0;
+	}
+	for (i = 0; i < n->expr.nargs; i++)
+		if (!iseffectfree(n->expr.args[i]))
+			return 0;
+	return 1;
+}
+
 static Node *
 val(Srcloc loc, vlong val, Type *t)
 {
@@ -252,9 +278,9 @@ fold(Node *n, int foldvar)
 		if (isintval(args[1], 1))
 			r = args[0];
 		/* 0 * x = 0 */
-		if (isintval(args[0], 0))
+		if (isintval(args[0], 0) && iseffectfree(args[1]))
 			r = args[0];
-		if (isintval(args[1], 0))
+		if (isintval(args[1], 0) && iseffectfree(args[0]))
 			r = args[1];
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
 			r = val(n->loc, (uvlong)a * (uvlong)b, exprtype(n));
@@ -280,7 +306,7 @@ fold(Node *n, int foldvar)
 		if (isintval(args[1], 0))
 			fatal(args[1], "division by zero");
 		/* x%1 = 0 */
-		if (isintval(args[1], 1))
+		if (isintval(args[1], 1) && iseffectfree(args[0]))
 			r = val(n->loc, 0, exprtype(n));
 		if (getintval(args[0], &a) && getintval(args[1], &b)) {
 			if (isunsigned(exprtype(n)))
-- 
2.43.0


From d9681605f2f2ace39fd7cc113af020f40dd172db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 006/218] fix: catch negative indexes and inverted slice bounds

---
 6/isel.c | 11 ++++++++++-
 6/simp.c | 12 ++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index ce4e6e4..bae2e02 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -262,6 +262,15 @@ movz(Isel *s, Loc *src, Loc *dst)
 		g(s, Imovzx, src, dst, NULL);
 }
 
+static void
+movs(Isel *s, Loc *src, Loc *dst)
+{
+	if (src->mode == dst->mode)
+		g(s, Imov, src, dst, NULL);
+	else
+		g(s, Imovsx, src, dst, NULL);
+}
+
 static void
 load(Isel *s, Loc *a, Loc *b)
 {
@@ -1144,7 +1153,7 @@ selexpr(Isel *s, Node *n)
 		a = selexpr(s, args[0]);
 		a = inr(s, a);
 		r = locreg(mode(n));
-		g(s, Imovsx, a, r, NULL);
+		movs(s, a, r);
 		break;
 	case Oint2flt:
 		a = selexpr(s, args[0]);
diff --git a/6/simp.c b/6/simp.c
index 6b2a9d6..7c27a75 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -415,7 +415,7 @@ ptrsized(Simp *s, Node *v)
 	if (size(v) == Ptrsz)
 		return v;
 	else if (size(v) < Ptrsz)
-		v = mkexpr(v->loc, Ozwiden, v, NULL);
+		v = mkexpr(v->loc, istysigned(exprtype(v)) ? Oswiden : Ozwiden, v, NULL);
 	else if (size(v) > Ptrsz)
 		v = mkexpr(v->loc, Otrunc, v, NULL);
 	v->expr.type = tyintptr;
@@ -489,7 +489,8 @@ idxaddr(Simp *s, Node *seq, Node *idx)
 	assert(exprtype(t)->type == Typtr);
 	u = rval(s, idx, NULL);
 	u = ptrsized(s, u);
-	checkidx(s, Olt, w, u);
+	/* unsigned, so that negative indexes are caught too */
+	checkidx(s, Oult, w, u);
 	sz = tysize(ty);
 	v = mul(u, disp(seq->loc, sz));
 	r = add(t, v);
@@ -699,8 +700,11 @@ simpslice(Simp *s, Node *n, Node *dst)
 	/* we can be storing through a pointer, in the case
 	 * of '*foo = bar'. */
 	max = seqlen(s, seq, tyword);
-	if (max)
-		checkidx(s, Ole, max, end);
+	if (max) {
+		/* unsigned, so that negative bounds are caught too */
+		checkidx(s, Oule, max, end);
+		checkidx(s, Oule, end, start);
+	}
 	if (tybase(exprtype(t))->type == Typtr) {
 		stbase = set(simpcast(s, t, mktyptr(t->loc, tyintptr)), base);
 		sz = addk(simpcast(s, t, mktyptr(t->loc, tyintptr)), Ptrsz);
-- 
2.43.0


From 568000dc89a33124a54d67befbaaff93e3bae7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 007/218] fix: apply postincrements of a loop condition on exit
 too

---
 mi/flatten.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 193e64b..2176c33 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -744,6 +744,7 @@ flattenloop(Flattenctx *s, Node *n)
 	Node *ldec;
 	Node *lcond;
 	Node *lstep;
+	Node *cond, *t;
 
 	lbody = genlbl(n->loc);
 	ldec = genlbl(n->loc);
@@ -767,7 +768,15 @@ flattenloop(Flattenctx *s, Node *n)
 	flatten(s, lstep);             /* test lbl */
 	flatten(s, n->loopstmt.step);  /* step */
 	flatten(s, lcond);             /* test lbl */
-	flattencond(s, n->loopstmt.cond, ldec, lend);    /* repeat? */
+	cond = rval(s, n->loopstmt.cond);
+	if (s->incqueue) {
+		/* the increments happen whether or not we repeat */
+		t = temp(s, cond);
+		flatten(s, asn(t, cond));
+		draininc(s);
+		cond = t;
+	}
+	flattencond(s, cond, ldec, lend);    /* repeat? */
 	flatten(s, ldec);        	/* drain decrements */
 	draininc(s);
 	jmp(s, lbody);              	/* goto test */
-- 
2.43.0


From 5ede2069abf4d87f1528c13291f416bd6befb0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 008/218] fix: rewrite coalesced registers whenever something
 is spilled

---
 6/ra.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/6/ra.c b/6/ra.c
index 3ec5cb1..018e058 100644
--- a/6/ra.c
+++ b/6/ra.c
@@ -1223,8 +1223,10 @@ replacealias(Isel *s, Loc **map, size_t nreg, Insn *insn)
 	size_t i;
 	Loc *l;
 
-	if (!map)
-		return;
+	/*
+	 * Also when no spill was planned, but colouring failed: remap() and the
+	 * spill slots are keyed by alias.
+	 */
 	for (i = 0; i < insn->nargs; i++) {
 		l = insn->args[i];
 		if (l->type == Locreg) {
-- 
2.43.0


From 1691536e4c671ec6604c4ca718c58348454a352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 009/218] fix: let moves between coalesced registers be frozen

---
 6/ra.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/6/ra.c b/6/ra.c
index 018e058..46aeee9 100644
--- a/6/ra.c
+++ b/6/ra.c
@@ -1011,6 +1011,9 @@ freezemoves(Isel *s, Loc *u)
 			mldel(&s->wlmove, &s->nwlmove, s->wlmoveset, m);
 
 		lappend(&s->mfrozen, &s->nmfrozen, m);
+		/* both ends were coalesced, and we're moving it already */
+		if (v == u)
+			continue;
 		if (!moverelated(s, v->reg.id) && istrivial(s, v->reg.id)) {
 			if (!wlfind(s->wlfreeze, s->nwlfreeze, v->reg.id, &idx))
 				die("Reg %zd not in freeze wl\n", v->reg.id);
-- 
2.43.0


From c98ccf6181aa96f7b1fa24f9aa2a3ea8a8d52280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 010/218] fix: don't drop zero extension of a register into
 itself

---
 6/gengas.c | 3 +--
 6/genp9.c  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/6/gengas.c b/6/gengas.c
index b224300..5107eaf 100644
--- a/6/gengas.c
+++ b/6/gengas.c
@@ -126,8 +126,7 @@ iprintf(FILE *fd, Insn *insn)
 				insn->args[1] = coreg(insn->args[1]->reg.colour, ModeL);
 			}
 		}
-		if(dumbmov(insn->args[0], insn->args[1]))
-			return;
+		/* never a nop: 'movl %eax,%eax' clears the upper half */
 		break;
 	case Imovs:
 		if(dumbmov(insn->args[0], insn->args[1]))
diff --git a/6/genp9.c b/6/genp9.c
index 4fd9257..455cb49 100644
--- a/6/genp9.c
+++ b/6/genp9.c
@@ -124,8 +124,7 @@ iprintf(FILE *fd, Insn *insn)
 				insn->args[1] = coreg(insn->args[1]->reg.colour, ModeL);
 			}
 		}
-		if(dumbmov(insn->args[0], insn->args[1]))
-			return;
+		/* never a nop: 'movl %eax,%eax' clears the upper half */
 		break;
 	case Imovs:
 		if(dumbmov(insn->args[0], insn->args[1]))
-- 
2.43.0


From dfb1bf1fa85c630d891d4687218bf4f025c2b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 011/218] fix: don't use displacements beyond 32 bits

---
 6/isel.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/6/isel.c b/6/isel.c
index bae2e02..30e89f0 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -461,7 +461,8 @@ memloc(Isel *s, Node *e, Mode m)
 
 		if (b->type != Locreg)
 			b = inr(s, b);
-		if (o->type == Loclit) {
+		/* displacements are 32 bits */
+		if (o->type == Loclit && scale*o->lit == (int32_t)(scale*o->lit)) {
 			l = locmem(scale*o->lit, b, NULL, m);
 		} else {
 			b = inr(s, b);
-- 
2.43.0


From be9f164aeae29e3fbc97cbef05820c852ed62216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 012/218] fix: don't move labels of dead blocks to several
 successors

---
 mi/cfg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mi/cfg.c b/mi/cfg.c
index 6e9a6ad..25eb7f0 100644
--- a/mi/cfg.c
+++ b/mi/cfg.c
@@ -123,6 +123,9 @@ delete(Cfg *cfg, Bb *bb)
 	for (i = 0; bsiter(bb->succ, &i); i++) {
 		bsunion(cfg->bb[i]->pred, bb->pred);
 		bsdel(cfg->bb[i]->pred, bb->id);
+		/* if several blocks follow, nothing jumps to these labels */
+		if (bscount(bb->succ) > 1)
+			continue;
 		for (j = 0; j < bb->nlbls; j++)
 			strlabel(cfg, bb->lbls[j], cfg->bb[i]);
 	}
-- 
2.43.0


From 001cf5c3e55a6883e93254c8c9ed08c13e5253c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 013/218] fix: only fuse rotates of unsigned operands

---
 6/isel.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/6/isel.c b/6/isel.c
index 30e89f0..1d9efae 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -877,6 +877,9 @@ rolop(Isel *s, Node *n, Node *l, Node *r)
 		return NULL;
 	if (l->expr.args[0]->expr.did != r->expr.args[0]->expr.did)
 		return NULL;
+	/* casts change the type of n, but not how the operands are shifted */
+	if (!istyunsigned(exprtype(l->expr.args[0])))
+		return NULL;
 
 	if (exprop(l->expr.args[1]) != Olit)
 		return NULL;
-- 
2.43.0


From ab167d2213bd085e08bc16d540381ad01131c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 014/218] fix: step over whole characters between tokens

---
 lib/std/strsplit.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/strsplit.myr b/lib/std/strsplit.myr
index af34838..3481a9b 100644
--- a/lib/std/strsplit.myr
+++ b/lib/std/strsplit.myr
@@ -85,7 +85,7 @@ const dostrtok = {toks, s, grow
 	idx = 0
 	while i != s.len
 		while isspace(std.decode(s[i:])) && i < s.len
-			i++
+			i += charlen(std.decode(s[i:]))
 		;;
 		j = i
 		while !std.isspace(std.decode(s[j:])) && j < s.len
-- 
2.43.0


From 86e6df414cf96aee69ddc5a12e63a159a92a08af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 015/218] fix: consult both character tables

---
 lib/std/chartype.myr | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/std/chartype.myr b/lib/std/chartype.myr
index 500bee1..5bfecbe 100644
--- a/lib/std/chartype.myr
+++ b/lib/std/chartype.myr
@@ -1534,11 +1534,13 @@ const isalpha = {c
 
 	if isupper(c) || islower(c)
 		-> true
-	elif findc(c, ralpha2[:], ralpha2.len/2, 2, &l)
+	;;
+	if findc(c, ralpha2[:], ralpha2.len/2, 2, &l)
 		if (c >= l[0] && c <= l[1])
 			-> true
 		;;
-	elif findc(c, ralpha1[:], ralpha1.len, 1, &l)
+	;;
+	if findc(c, ralpha1[:], ralpha1.len, 1, &l)
 		if (c == l[0])
 			-> true
 		;;
@@ -1597,7 +1599,8 @@ const islower = {c
 		if (c >= l[0] && c <= l[1])
 			-> true
 		;;
-	elif findc(c, rtoupper1[:], rtoupper1.len/2, 2, &l)
+	;;
+	if findc(c, rtoupper1[:], rtoupper1.len/2, 2, &l)
 		if (c == l[0])
 			-> true
 		;;
@@ -1613,7 +1616,8 @@ const isupper = {c
 		if (c >= l[0] && c <= l[1])
 			-> true
 		;;
-	elif findc(c, rtolower1[:], rtolower1.len/2, 2, &l)
+	;;
+	if findc(c, rtolower1[:], rtolower1.len/2, 2, &l)
 		if (c == l[0])
 			-> true
 		;;
@@ -1636,7 +1640,8 @@ const tolower = {c
 		if c >= l[0] && c <= l[1]
 			-> c + l[2] - 500;
 		;;
-	elif findc(c, rtolower1[:], rtolower1.len/2, 2, &l) 
+	;;
+	if findc(c, rtolower1[:], rtolower1.len/2, 2, &l) 
 		if c == l[0]
 			-> c + l[1] - 500;
 		;;
@@ -1651,7 +1656,8 @@ const toupper = {c
 		if c >= l[0] && c <= l[1]
 			-> c + l[2] - 500;
 		;;
-	elif findc(c, rtoupper1[:], rtoupper1.len/2, 2, &l);
+	;;
+	if findc(c, rtoupper1[:], rtoupper1.len/2, 2, &l);
 		if c == l[0]
 			-> c + l[1] - 500;
 		;;
-- 
2.43.0


From f9b57797d5e2fd0c66349c69ff2d06961324f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 016/218] fix: read two bytes in gethost16

---
 lib/std/getint.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/getint.myr b/lib/std/getint.myr
index 3499c4d..146e310 100644
--- a/lib/std/getint.myr
+++ b/lib/std/getint.myr
@@ -69,7 +69,7 @@ generic getle32 = {buf -> @a :: numeric, integral @a
 generic gethost16 = {buf -> @a :: numeric,integral @a
 	var val : int16
 	iassert(buf.len >= 2, "gethost16: index out of bounds")
-	memblit((&val : byte#), (buf : byte#), 4)
+	memblit((&val : byte#), (buf : byte#), 2)
 	-> (val : @a)
 }
 
-- 
2.43.0


From 77e40d8ce4a134baa06156a0788105604e947b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 017/218] fix: yield the offset of each character in bycharoff

---
 lib/std/striter.myr | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/std/striter.myr b/lib/std/striter.myr
index dce382c..edb849d 100644
--- a/lib/std/striter.myr
+++ b/lib/std/striter.myr
@@ -112,14 +112,15 @@ const bygrapheme = {str
  */
 impl iterable charoffiter -> (char, size) = 
 	__iternext__ = {ci, cv
-		var c
+		var c, off
 
 		if ci.idx == ci.str.len
 			-> false
 		;;
-		c = std.decode(ci.str[ci.idx:])
+		off = ci.idx
+		c = std.decode(ci.str[off:])
 		ci.idx += std.charlen(c)
-		cv# = (c, ci.idx)
+		cv# = (c, off)
 		-> true
 	}
 
-- 
2.43.0


From c57d991fc9ba499e8c213eaf9df86d3152aad346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:54 +0000
Subject: [PATCH 018/218] fix: don't specialize iterators for unbound type
 parameters

---
 parse/infer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/infer.c b/parse/infer.c
index 68a0fd4..284b61d 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2837,7 +2837,7 @@ specialize(void)
 			tr = traittab[Tciter];
 			assert(tr->nproto == 2);
 			ty = exprtype(n->iterstmt.seq);
-			if (ty->type == Typaram)
+			if (hasparams(ty))
 				goto enditer;
 
 			it = itertype(n->iterstmt.seq, mktype(n->loc, Tybool));
-- 
2.43.0


From 9cce9c0de30f793612bec70ef6f88cca983bdad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 019/218] fix: look for the key past tombstones in htput

---
 lib/std/htab.myr | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/std/htab.myr b/lib/std/htab.myr
index 9c00da5..70a31f0 100644
--- a/lib/std/htab.myr
+++ b/lib/std/htab.myr
@@ -129,16 +129,24 @@ generic htfree = {ht
 }
 
 generic htput = {ht, k, v
-	var i, di
+	var i, di, d
 	var h
-	var found
+	var found, reuse
 
 	di = 0
 	h = xhash(k)
 	i = h & (ht.keys.len - 1)
+	d = i
 	found = false
-	while ht.hashes[i] != 0 && !ht.dead[i]
-		if ht.hashes[i] == h &&	eq(ht.keys[i], k)
+	reuse = false
+	/* a tombstone may hide the key further along, so keep looking past it */
+	while ht.hashes[i] != 0
+		if ht.dead[i]
+			if !reuse
+				reuse = true
+				d = i
+			;;
+		elif ht.hashes[i] == h && eq(ht.keys[i], k)
 			found = true
 			break
 		;;
@@ -146,6 +154,10 @@ generic htput = {ht, k, v
 		i = (h + di) & (ht.keys.len - 1)
 	;;
 	if !found
+		if reuse
+			i = d
+			ht.ndead--
+		;;
 		ht.keys[i] = k
 		ht.nelt++
 	;;
-- 
2.43.0


From 14315e121d880e882b5611274f4f3e596f81126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 020/218] fix: drop what is past the end of the other set in
 bsintersect

---
 lib/std/bitset.myr | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/std/bitset.myr b/lib/std/bitset.myr
index 3d8c2ff..8908e02 100644
--- a/lib/std/bitset.myr
+++ b/lib/std/bitset.myr
@@ -126,6 +126,10 @@ const bsintersect = {a, b
 	for var i = 0; i < n; i++
 		a.bits[i] &= b.bits[i]
 	;;
+	/* b has nothing past its end */
+	for var i = n; i < a.bits.len; i++
+		a.bits[i] = 0
+	;;
 }
 
 const bsdiff = {a, b
-- 
2.43.0


From d96268f6258c3abd5fd57ba4ad708981b1c4c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 021/218] fix: negative values are in no bit set

---
 lib/std/bitset.myr | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/std/bitset.myr b/lib/std/bitset.myr
index 8908e02..a0faf80 100644
--- a/lib/std/bitset.myr
+++ b/lib/std/bitset.myr
@@ -91,6 +91,9 @@ generic bsdel = {bs, v
 	var idx, off, changed
 
 	changed = false
+	if (v : size) < 0
+		-> false
+	;;
 	idx = (v : size) / (8*sizeof(size))
 	off = (v : size) % (8*sizeof(size))
 	if idx < bs.bits.len
@@ -104,6 +107,9 @@ generic bshas = {bs, v
 	var idx
 	var off
 
+	if (v : size) < 0
+		-> false
+	;;
 	idx = (v : size) / (8*sizeof(size))
 	off = (v : size) % (8*sizeof(size))
 	if idx >= bs.bits.len
-- 
2.43.0


From 1d6098253ab820ddb19a2076ba7b69f85011975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 022/218] fix: negate in 64 bits in mkbigint

---
 lib/std/bigint.myr | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index ee82e7b..5703081 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -103,11 +103,11 @@ generic mkbigint = {v : @a :: integral,numeric @a
 
 	if v < 0
 		a.sign = -1
-		v = -v
-	elif v > 0
+		val = -(v : uint64)
+	else
 		a.sign = 1
+		val = (v : uint64)
 	;;
-	val = (v : uint64)
 	slpush(&a.dig, (val : uint32))
 	if val >= Base
 		slpush(&a.dig, (val/Base : uint32))
-- 
2.43.0


From 7c334d413781f4095f3aebb8f2c254cbfac34ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 023/218] fix: shift after widening in bigfrombytes

---
 lib/std/bigint.myr | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index 5703081..a0801de 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -127,10 +127,10 @@ const bigfrombytes = {isneg, v
 
 	for i = 0; i + 4 <= v.len; i += 4
 		slpush(&a.dig, \
-			(v[i + 0] <<  0 : uint32) | \
-			(v[i + 1] <<  8 : uint32) | \
-			(v[i + 2] << 16 : uint32) | \
-			(v[i + 3] << 24 : uint32))
+			((v[i + 0] : uint32) <<  0) | \
+			((v[i + 1] : uint32) <<  8) | \
+			((v[i + 2] : uint32) << 16) | \
+			((v[i + 3] : uint32) << 24))
 	;;
 	last = 0
 	for i; i < v.len; i++
-- 
2.43.0


From 24b8fd3818f582641ed8c656d1f91b81b13896fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 024/218] fix: take the last bytes from the end in bigfrombytes

---
 lib/std/bigint.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index a0801de..b6c0a4e 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -135,7 +135,7 @@ const bigfrombytes = {isneg, v
 	last = 0
 	for i; i < v.len; i++
 		off = i & 0x3
-		last |= (v[off] : uint32) << (8 *off)
+		last |= (v[i] : uint32) << (8 *off)
 	;;
 	slpush(&a.dig, last)
 	-> trim(a)
-- 
2.43.0


From 6742ec8089bd87eae73c4c460907124131ef4d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 025/218] fix: keep the sign of the dividend in the remainder
 by one digit

---
 lib/std/bigint.myr | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index b6c0a4e..8d71a38 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -705,7 +705,9 @@ const bigdivmod = {a : bigint#, b : bigint# -> (bigint#, bigint#)
 			carry = (carry << 32) + aj - (q.dig[j-1] : uint64)*b0
 		;;
 		q = trim(q)
-		-> (q, trim(mkbigint(carry)))
+		u = mkbigint(carry)
+		u.sign = u.sign * a.sign
+		-> (q, trim(u))
 	;;
 
 	u = bigdup(a)
-- 
2.43.0


From c19f3e334546bde41f66335c30fa0b7a39e3a415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 026/218] fix: leave b alone in bigand

---
 lib/std/bigint.myr | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index 8d71a38..f98b507 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -777,12 +777,9 @@ const bigdivmod = {a : bigint#, b : bigint# -> (bigint#, bigint#)
 }
 
 const bigand = {a, b
-   if a.dig.len > b.dig.len
-      slzgrow(&b.dig, a.dig.len)
-   ;;
-   if b.dig.len > a.dig.len
-      slzgrow(&a.dig, b.dig.len)
-   ;;
+	if a.dig.len > b.dig.len
+		a.dig = a.dig[:b.dig.len]
+	;;
 	for var i = 0; i < a.dig.len; i++
 		a.dig[i] &= b.dig[i]
 	;;
-- 
2.43.0


From ce6134375110797ee9d456a227ef7a90a62e2f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 027/218] fix: give the result of bigor a sign when the first
 operand is zero

---
 lib/std/bigint.myr | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index f98b507..71ae83a 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -787,6 +787,9 @@ const bigand = {a, b
 }
 
 const bigor = {a, b
+	if a.sign == 0
+		a.sign = b.sign
+	;;
 	slzgrow(&a.dig, max(a.dig.len, b.dig.len))
 	for var i = 0; i < min(a.dig.len, b.dig.len); i++
 		a.dig[i] |= b.dig[i]
-- 
2.43.0


From d2f118e557ff0b30b98b3c2db04dff1ee9f7efcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 028/218] fix: reduce the initial value in bigmodpow

---
 lib/std/bigint.myr | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index 71ae83a..dad2b21 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -799,10 +799,9 @@ const bigor = {a, b
 
 /* computes b^e % m */
 const bigmodpow = {base, exp, mod
-	var r, n
+	var r
 
-	r = mkbigint(1)
-	n = 0
+	r = bigmod(mkbigint(1), mod)
 	while !bigiszero(exp)
 		if (exp.dig[0] & 1) != 0
 			bigmul(r, base)
-- 
2.43.0


From b1e27add0a5969a73fd5c34e9bd86244028be687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 029/218] fix: trim all parts in the Karatsuba multiplication

---
 lib/std/bigint.myr | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index dad2b21..e63751e 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -588,18 +588,19 @@ const kmul = {r, a, b
 	x1 = [.sign=1, .dig=a.dig[n:]]
 	y0 = [.sign=1, .dig=b.dig[:n]]
 	y1 = [.sign=1, .dig=b.dig[n:]]
+	trim(&x0)
+	trim(&x1)
+	trim(&y0)
+	trim(&y1)
 
 	z0 = bigdup(&x0)
-	trim(z0)
 	umul(z0, &y0)
 
 	z2 = bigdup(&x1)
-	trim(z2)
 	umul(z2, &y1)
 
 
 	z1 = bigdup(&x0)
-	trim(z1)
 	bigsub(z1, &x1)
 	var z1sign = z1.sign
 	t0 = bigdup(&y1)
-- 
2.43.0


From cbfa59ede92155d49a227ba204b254810efe599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 030/218] fix: free the result of the Karatsuba multiplication

---
 lib/std/bigint.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index e63751e..7c7ff18 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -569,7 +569,7 @@ const umul = {a, b
 	else
 		r = mkbigint(0)
 		kmul(r, a, b)
-		bigmove(a, r)
+		bigsteal(a, r)
 	;;
 }
 
-- 
2.43.0


From 428be6f342f7990c5e8fd0efbf94ed5f9e22f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 031/218] fix: initialize the returned length in fputv

---
 lib/std/fmt.myr | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/std/fmt.myr b/lib/std/fmt.myr
index 4a70c21..41dc0b9 100644
--- a/lib/std/fmt.myr
+++ b/lib/std/fmt.myr
@@ -117,6 +117,7 @@ const fputv = {fd, fmt, ap
 	sb = mksb()
 	sbfmtv(sb, fmt, ap)
 	s = sbfin(sb)
+	nw = 0
 	match writeall(fd, s)
 	| `std.Ok n:		nw += n
 	| `std.Err (n, _):	nw += n
-- 
2.43.0


From 9f6aa84be0f77917677ddedf2cdb8f6450e024ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 032/218] fix: format the minimum int64 like other values

---
 lib/std/intfmt.myr | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/lib/std/intfmt.myr b/lib/std/intfmt.myr
index 7b9cfdf..a56dd8f 100644
--- a/lib/std/intfmt.myr
+++ b/lib/std/intfmt.myr
@@ -29,12 +29,6 @@ const intfmt = {sb : strbuf#, opts : intparams, signed : bool, bits : uint64, nb
 		sval = -(bits : int64)
 		val = (sval : uint64)
 		isneg = true
-
-		/* if its negative after inverting, we have int64 min */
-		if sval < 0
-			std.sbputs(sb, "-9223372036854775808")
-			-> void
-		;;
 	else
 		val = (bits : uint64)
 		val &= ~0 >> nbits
-- 
2.43.0


From beddac587c5ee0649eacf1abeeca1665f9633169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 033/218] fix: escape quotes and backslashes with {e}

---
 lib/std/fmt.myr | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/lib/std/fmt.myr b/lib/std/fmt.myr
index 41dc0b9..dea9c22 100644
--- a/lib/std/fmt.myr
+++ b/lib/std/fmt.myr
@@ -555,19 +555,19 @@ const strfmt = {sb, str, ap, params
 		;;
 	elif esc
 		for b : str
-			if isprint(b)
-				sbputb(sb, b)
-			else
-				match (b : char)
-				| '\n':	sbputs(sb, "\\n")
-				| '\r':	sbputs(sb, "\\r")
-				| '\t':	sbputs(sb, "\\t")
-				| '\b':	sbputs(sb, "\\b")
-				| '\"':	sbputs(sb, "\\\"")
-				| '\'':	sbputs(sb, "\\\'")
-				| '\\':	sbputs(sb, "\\\\")
-				| '\0':	sbputs(sb, "\\0")
-				| _:
+			match (b : char)
+			| '\n':	sbputs(sb, "\\n")
+			| '\r':	sbputs(sb, "\\r")
+			| '\t':	sbputs(sb, "\\t")
+			| '\b':	sbputs(sb, "\\b")
+			| '\"':	sbputs(sb, "\\\"")
+			| '\'':	sbputs(sb, "\\\'")
+			| '\\':	sbputs(sb, "\\\\")
+			| '\0':	sbputs(sb, "\\0")
+			| _:
+				if isprint(b)
+					sbputb(sb, b)
+				else
 					sbputs(sb, "\\x")
 					intfmt(sb, [.padto=2, .padfill='0', .base=16], false, (b : uint64), 8)
 				;;
-- 
2.43.0


From 725e5c1a9d1bd542208a2c3e88e1e281f6307faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 034/218] fix: take width arguments after values of named types

---
 lib/std/fmt.myr | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/std/fmt.myr b/lib/std/fmt.myr
index dea9c22..61cddb1 100644
--- a/lib/std/fmt.myr
+++ b/lib/std/fmt.myr
@@ -412,9 +412,17 @@ const fallbackfmt = {sb, params, tyenc, ap : valist# -> void
 		;;
 		vabytes(ap)
 	| `Tyname (name, desc):
+		var num : byte[32]
 		subap = vaenter(ap)
-		fmtval(sb, desc, &subap, params)
 		vabytes(ap)
+		/* a width given as an argument follows the value in ap */
+		for var i = 0; i < params.len; i++
+			match params[i]
+			| ("w", "?"):	params[i] = ("w", bfmt(num[:], "{}", pullint(ap, "fmt: width = ? must be integer")))
+			| _:
+			;;
+		;;
+		fmtval(sb, desc, &subap, params)
 	;;
 }
 
-- 
2.43.0


From 349e9f31bd862cf483ab605fbc8db1fcd0253658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 035/218] fix: format addresses into the buffer

---
 lib/std/fmtfuncs.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/fmtfuncs.myr b/lib/std/fmtfuncs.myr
index 545506a..74bea94 100644
--- a/lib/std/fmtfuncs.myr
+++ b/lib/std/fmtfuncs.myr
@@ -67,11 +67,11 @@ const ipfmt = {sb, ap, opts
 	ip = std.vanext(ap)
 	match ip
 	| `Ipv4 a:
-		std.put("{}.{}.{}.{}", a[0], a[1], a[2], a[3])
+		sbfmt(sb, "{}.{}.{}.{}", a[0], a[1], a[2], a[3])
 	| `Ipv6 a:	
 		sep = ""
 		for var i = 0; i < 16; i += 2
-			std.put("{}{w=2,p=0,x}{w=2,p=0,x}", sep, a[i+0], a[i+1])
+			sbfmt(sb, "{}{w=2,p=0,x}{w=2,p=0,x}", sep, a[i+0], a[i+1])
 			sep = ":"
 		;;
 	;;
-- 
2.43.0


From cba18af2d16dadf1d70c7a1afc94f25f10423814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 036/218] fix: give bools and functions their size in typeinfo

---
 lib/std/introspect.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/introspect.myr b/lib/std/introspect.myr
index 5198aeb..a888edb 100644
--- a/lib/std/introspect.myr
+++ b/lib/std/introspect.myr
@@ -268,7 +268,7 @@ const typeinfo = {ti
 	match ti[0]
 	| Encnone:	-> [.size=0, .align=1]
 	| Encvoid:	-> [.size=0, .align=1]
-	| Encbool:	-> [.size=0, .align=1]
+	| Encbool:	-> [.size=1, .align=1]
 	| Encchar:	-> [.size=4, .align=4]
 
 	| Encint8:	-> [.size=1, .align=1]
@@ -289,7 +289,7 @@ const typeinfo = {ti
 
 	/* compound types */
 	| Encptr:	-> [.size=8, .align=8]
-	| Encfunc:	-> [.size=8, .align=8]
+	| Encfunc:	-> [.size=16, .align=8]
 	| Encslice:	-> [.size=16, .align=8]
 
 	| Encarray: 	-> gettypeinfo(ti[1:])
-- 
2.43.0


From 1ab56d622bb3ad07cc19134c47a74545cfbacb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 037/218] fix: round correctly in float parsing

---
 lib/std/fltparse.myr | 243 ++++++++++++-------------------------------
 1 file changed, 67 insertions(+), 176 deletions(-)

diff --git a/lib/std/fltparse.myr b/lib/std/fltparse.myr
index 8214f14..ea1f4a3 100644
--- a/lib/std/fltparse.myr
+++ b/lib/std/fltparse.myr
@@ -30,9 +30,9 @@ const flt64parse = {str
 	| `Inf sign:	-> `std.Some ((sign : flt64) * std.flt64inf())
 	| `Nan sign:	-> `std.Some ((sign : flt64) * std.flt64nan())
 	| `Flt (sign, mant, exp):
-		val = toflt(sign, mant, exp, &lim64)
+		val = std.flt64frombits(tobits(mant, (exp : int64), &lim64))
 		std.bigfree(mant)
-		-> `std.Some val
+		-> `std.Some ((sign : flt64) * val)
 	;;
 }
 
@@ -44,9 +44,9 @@ const flt32parse = {str
 	| `Inf sign:	-> `std.Some ((sign : flt32) * std.flt32inf())
 	| `Nan sign:	-> `std.Some ((sign : flt32) * std.flt32nan())
 	| `Flt (sign, mant, exp):
-		val = toflt(sign, mant, exp, &lim32)
+		val = std.flt32frombits((tobits(mant, (exp : int64), &lim32) : uint32))
 		std.bigfree(mant)
-		-> `std.Some (val : flt32)
+		-> `std.Some ((sign : flt32) * val)
 	;;
 }
 
@@ -122,157 +122,95 @@ const fltchar = {c
 }
 
 type lim = struct
-	minsig	: uint64
-	maxsig	: uint64
-	loshift	: uint64
-	nextinc	: uint64
-	minexp	: int16
-	maxexp	: int16
-	sigbits	: int16
+	sigbits	: int64	/* bits of the significand */
+	minexp	: int64	/* exponent of the last bit of the smallest values */
+	maxexp	: int64	/* exponent of the last bit of the largest values */
+	inf	: uint64
 ;;
 
 const lim64 : lim = [
-	.minsig=0x10000000000000ul,
-	.maxsig=0x20000000000000ul,
+	.sigbits=53,
 	.minexp=-1022 - 52,
 	.maxexp=1023 - 52,
-	.sigbits=53,
-	.nextinc=1,
-	.loshift=0
+	.inf=0x7ff0000000000000ul
 ]
 
 const lim32 : lim = [
-	.minsig=0x400000,
-	.maxsig=0x800000,
-	.minexp=-126-22,
-	.maxexp=127-22,
-	.sigbits=22,
-	.nextinc=0x20000000,
-	.loshift=30
+	.sigbits=24,
+	.minexp=-126 - 23,
+	.maxexp=127 - 23,
+	.inf=0x7f800000ul
 ]
 
-const toflt = {sign, mant, exp, lim
+/*
+returns the bits of the float nearest to mant*10^exp, with ties going to
+the even one. Clobbers mant.
+*/
+const tobits = {mant, exp : int64, lim
+	var u, v, q, r, k : int64, nbits : int64, bits
+
 	/* if it's all zero, just return 0 */
-	if std.bigeqi(mant, 0)
-		-> (sign : flt64) * 0.0
-	/* todo: add fast parsing for common cases */
-	else
-		-> (sign : flt64) * fallback(mant, exp, lim)
+	if std.bigiszero(mant)
+		-> 0
 	;;
-}
 
-const fallback = {mant, exp, lim
-	var u, v, k : int16, eabs
-	var x, r, xprime, rprime
-	var f
+	/* don't bother with powers that surely overflow or underflow: 2^3 < 10 < 2^4 */
+	nbits = (std.bigbitcount(mant) : int64)
+	if exp > 0 && 3*exp > lim.maxexp + lim.sigbits
+		-> lim.inf
+	elif exp < 0 && nbits + 3*exp < lim.minexp - 1
+		-> 0
+	;;
 
 	u = mant
-	k = 0
 	v = std.mkbigint(1)
-	x = std.mkbigint(0)
-	r = std.mkbigint(0)
-	eabs = std.abs(exp)
 	if exp >= 0
-		/* can be optimized */
-		mulexp(u, eabs, 10)
+		mulexp(u, exp, 10)
 	else
-		mulexp(v, eabs, 10)
+		mulexp(v, -exp, 10)
 	;;
 
-	estimate(u, v, &k, lim)
-
-	while true
-		(xprime, rprime) = std.bigdivmod(u, v)
-		std.bigsteal(x, xprime)
-		std.bigsteal(r, rprime)
-		if k == lim.minexp 
-			if std.biggei(x, lim.minsig) && std.biglei(x, lim.maxsig)
-				break
-			else
-				f = denormal(x, v, r, lim)
-				goto done
-			;;
-		elif k > lim.maxexp
-			f = std.flt64inf()
-			goto done
-		;;
-		if std.biglti(x, lim.minsig)
-			std.bigmuli(u, 2)
-			k--
-		elif std.biggti(x, lim.maxsig)
-			std.bigmuli(v, 2)
-			k++
-		else
-			break
-		;;
-	;;
-	f = assemble(u, v, r, k, lim)
-:done
-	std.bigfree(v)
-	std.bigfree(x)
-	std.bigfree(r)
-	-> f
-}
-
-const estimate = {u, v, k, lim
-	var log2u, log2v, log2rat
-	var ushift, vshift
-	var targ
-
-	targ = lim.sigbits
-	log2u = std.bigbitcount(u)
-	log2v = std.bigbitcount(v)
-	ushift = 0
-	vshift = 0
-	log2rat = (log2u - log2v : int16)
-	/* 
-	if we deal with denormals, we just punt to the 'k == minexp' test
-	and take the slow path.
-	*/
-	if log2rat < targ - 1
-		ushift = std.clamp(targ - log2rat - 1, lim.minexp, lim.maxexp)
-		k# -= ushift
-	elif log2rat > targ + 1
-		vshift = std.clamp(log2rat - targ + 1, lim.minexp, lim.maxexp)
-		k# += vshift
+	/* u/v has this many bits, or one less */
+	nbits = (std.bigbitcount(u) : int64) - (std.bigbitcount(v) : int64) + 1
+	k = std.max(nbits - lim.sigbits, lim.minexp)
+	if k < 0
+		std.bigshli(u, -k)
+	else
+		std.bigshli(v, k)
 	;;
-	std.bigshli(u, ushift)
-	std.bigshli(v, vshift)
-}
-
-const assemble = {u, v, r, k, lim
-	var z, diff
-
-	std.bigdiv(u, v)
-	diff = std.bigdup(v)
-	std.bigsub(diff, r)
-	z = mkflt(u, k)
 
-	match std.bigcmp(r, diff)
-	| `std.Before:	/* nothing */
-	| `std.After:	z = nextfloat(z, lim)
-	| `std.Equal:
-		if !std.bigiseven(u)
-			z = nextfloat(z, lim)
-		;;
+	(q, r) = std.bigdivmod(u, v)
+	if (std.bigbitcount(q) : int64) < lim.sigbits && k > lim.minexp
+		k--
+		std.bigshli(u, 1)
+		std.bigfree(q)
+		std.bigfree(r)
+		(q, r) = std.bigdivmod(u, v)
 	;;
-	std.bigfree(diff)
-	-> z
-}
 
-const nextfloat = {z, lim
-	var sign, mant, exp
-	var za
-
-	(sign, exp, mant) = std.flt64explode(z)
-	if std.abs((mant : int64) - (1l << 52) - 1) < (lim.nextinc : int64)
-		mant = 0
-		exp++
+	if k > lim.maxexp
+		bits = lim.inf
 	else
-		mant += lim.nextinc
+		/* the leading bit, if any, increments the exponent field; so does rounding up to the next power */
+		bits = 0
+		for var i = q.dig.len; i > 0; i--
+			bits = (bits << 32) | (q.dig[i - 1] : uint64)
+		;;
+		bits += (k - lim.minexp : uint64) << (lim.sigbits - 1 : uint64)
+		std.bigshli(r, 1)
+		match std.bigcmp(r, v)
+		| `std.Before:	/* nothing */
+		| `std.After:	bits++
+		| `std.Equal:
+			if !std.bigiseven(q)
+				bits++
+			;;
+		;;
 	;;
-	za = std.flt64assem(sign, exp, mant)
-	-> za
+	std.bigfree(v)
+	std.bigfree(q)
+	std.bigfree(r)
+	-> bits
 }
 
 const mulexp = {val, exp, pow
@@ -281,50 +219,3 @@ const mulexp = {val, exp, pow
 		std.bigmuli(val, pow)
 	;;
 }
-
-const denormal = {x, v, rem, lim
-	var m, z
-
-	if x.dig.len == 0
-		m = 0
-	elif x.dig.len == 2
-		m = (x.dig[0] : uint64) 
-		m |= (x.dig[1] : uint64) << 32
-	else
-		m = (x.dig[0] : uint64) << lim.loshift
-	;;
-	z = std.flt64frombits(m)
-
-	match std.bigcmp(rem, v)
-	| `std.Before:	/* nothing */
-	| `std.After:	z = nextfloat(z, lim)
-	| `std.Equal:
-		if !std.bigiseven(x)
-			z = nextfloat(z, lim)
-		;;
-	;;
-	-> z
-}
-
-const mkflt = {mant, exp
-	var m, e
-	if mant.dig.len == 2
-		/* flt64: guaranteed to be in the range 2^52..2^53 */
-		m = (mant.dig[0] : uint64) 
-		m |= (mant.dig[1] : uint64) << 32
-	else
-		/* flt32: 2^22..2^23, so adjust into flt64 range */
-		m = (mant.dig[0] : uint64) << 30
-		exp -= 30
-	;;
-	m &= (1<<52) - 1
-
-	e = (exp : uint64)
-	e += 1023 + 52 /* exponent bias */
-	e &= 0x7ff
-	e <<= 52
-
-	-> std.flt64frombits(m | e)
-
-}
-
-- 
2.43.0


From 0b0bf7693038956609ce3fdba161bce685f88b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 038/218] fix: parse large exponents of floats

---
 lib/std/fltparse.myr | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/lib/std/fltparse.myr b/lib/std/fltparse.myr
index ea1f4a3..1aded22 100644
--- a/lib/std/fltparse.myr
+++ b/lib/std/fltparse.myr
@@ -16,7 +16,7 @@ pkg std =
 ;;
 
 type parseresult = union
-	`Flt (int, std.bigint#, int16)
+	`Flt (int, std.bigint#, int64)
 	`Inf int
 	`Nan int
 	`Badflt
@@ -30,7 +30,7 @@ const flt64parse = {str
 	| `Inf sign:	-> `std.Some ((sign : flt64) * std.flt64inf())
 	| `Nan sign:	-> `std.Some ((sign : flt64) * std.flt64nan())
 	| `Flt (sign, mant, exp):
-		val = std.flt64frombits(tobits(mant, (exp : int64), &lim64))
+		val = std.flt64frombits(tobits(mant, exp, &lim64))
 		std.bigfree(mant)
 		-> `std.Some ((sign : flt64) * val)
 	;;
@@ -44,7 +44,7 @@ const flt32parse = {str
 	| `Inf sign:	-> `std.Some ((sign : flt32) * std.flt32inf())
 	| `Nan sign:	-> `std.Some ((sign : flt32) * std.flt32nan())
 	| `Flt (sign, mant, exp):
-		val = std.flt32frombits((tobits(mant, (exp : int64), &lim32) : uint32))
+		val = std.flt32frombits((tobits(mant, exp, &lim32) : uint32))
 		std.bigfree(mant)
 		-> `std.Some ((sign : flt32) * val)
 	;;
@@ -70,7 +70,7 @@ const fltparse = {str
 	;;
 
 	i = 0
-	exp = 0
+	exp = 0l
 	expinc = 0
 	mant = std.mkbigint(0)
 	for var c = std.decode(str[i:]); c == '0'; c = std.decode(str[i:])
@@ -96,15 +96,26 @@ const fltparse = {str
 	;;
 	
 	if std.hasprefix(str[i:], "e") || std.hasprefix(str[i:], "E")
-		/* intparse doesn't accept '+', so if we have 'e+', consume the '+ */
-		if std.hasprefix(str[i+1:], "+")
+		var esign = 1
+		var e = 0
+		i++
+		if std.hasprefix(str[i:], "-")
+			esign = -1
+			i++
+		elif std.hasprefix(str[i:], "+")
 			i++
 		;;
-		match std.intparsebase(str[i+1:], 10)
-		| `std.Some n:	exp += n
-		| `std.None:	goto error
+		if i == str.len
+			goto error
+		;;
+		for var c = std.decode(str[i:]); std.isdigit(c) || c == '_'; c = std.decode(str[i:])
+			i++
+			/* large exponents saturate */
+			if c != '_' && e < 1l << 48
+				e = 10*e + (std.charval(c, 10) : int64)
+			;;
 		;;
-		i = str.len
+		exp += esign * e
 	;;
 	if i != str.len
 		goto error
-- 
2.43.0


From 1df21e6eb87d37a8dddbeb75454531cd572bc9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 039/218] fix: reject floats without digits

---
 lib/std/fltparse.myr | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/std/fltparse.myr b/lib/std/fltparse.myr
index 1aded22..5258121 100644
--- a/lib/std/fltparse.myr
+++ b/lib/std/fltparse.myr
@@ -51,7 +51,7 @@ const flt32parse = {str
 }
 
 const fltparse = {str
-	var sign, exp, mant, expinc, i
+	var sign, exp, mant, expinc, digits, i
 
 	if std.chomp(&str, "-")
 		sign = -1
@@ -71,10 +71,12 @@ const fltparse = {str
 
 	i = 0
 	exp = 0l
+	digits = false
 	expinc = 0
 	mant = std.mkbigint(0)
 	for var c = std.decode(str[i:]); c == '0'; c = std.decode(str[i:])
 		i++
+		digits = true
 	;;
 	for var c = std.decode(str[i:]); fltchar(c); c = std.decode(str[i:])
 		i++
@@ -87,6 +89,7 @@ const fltparse = {str
 			;;
 			expinc = -1
 		elif std.isdigit(c)
+			digits = true
 			exp += expinc
 			std.bigmuli(mant, 10)
 			std.bigaddi(mant, std.charval(c, 10))
@@ -94,7 +97,10 @@ const fltparse = {str
 			goto error
 		;;
 	;;
-	
+
+	if !digits
+		goto error
+	;;
 	if std.hasprefix(str[i:], "e") || std.hasprefix(str[i:], "E")
 		var esign = 1
 		var e = 0
-- 
2.43.0


From 0388686d9e95800ebeadad1d066a580bacb52830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 040/218] fix: pass the precision to dragon4

---
 lib/std/fltfmt.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/fltfmt.myr b/lib/std/fltfmt.myr
index 535f156..b0e3927 100644
--- a/lib/std/fltfmt.myr
+++ b/lib/std/fltfmt.myr
@@ -47,7 +47,7 @@ const flt64bfmt = {sb, opts, val
 	var valsb = mksb()
 
 	exp = max(exp, 1 - Dblbias)
-	dragon4(valsb, false, mant, exp - 52, Dblbias, opts.mode, -opts.cutoff, opts.scientific)
+	dragon4(valsb, false, mant, exp - 52, 53, opts.mode, -opts.cutoff, opts.scientific)
 
 	-> blobfmt(sb, sbfin(valsb), opts, isneg)
 }
@@ -68,7 +68,7 @@ const flt32bfmt = {sb, opts, val
 	var valsb = mksb()
 
 	exp = (max((exp : int64), 1 - Fltbias) : int32)
-	dragon4(valsb, false, (mant : uint64), (exp - 23 : int64), Fltbias, opts.mode, -opts.cutoff, opts.scientific)
+	dragon4(valsb, false, (mant : uint64), (exp - 23 : int64), 24, opts.mode, -opts.cutoff, opts.scientific)
 
 	-> blobfmt(sb, sbfin(valsb), opts, isneg)
 }
-- 
2.43.0


From 4b694dd76f352efc96b47365f86dcc58a5bf89d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 041/218] fix: round assembled denormal floats by the bits cut
 off

---
 lib/std/fltbits.myr | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/std/fltbits.myr b/lib/std/fltbits.myr
index 63f384e..8260853 100644
--- a/lib/std/fltbits.myr
+++ b/lib/std/fltbits.myr
@@ -65,9 +65,14 @@ const flt64assem = {sign, exp, mant
 	if exp <= -Dblbias && (mant & (1ul << 52) != 0)
 		var roundup = false
 		var shift : uint64 = ((1 - Dblbias - exp) : uint64)
-		var firstcut = mant & (1 << shift)
-		var restcut = mant & ((1 << shift) - 1)
-		var lastkept = mant & (1 << (shift + 1))
+		/* less than half of the smallest denormal */
+		if shift > 53
+			mant = 0
+			shift = 1
+		;;
+		var firstcut = mant & (1 << (shift - 1))
+		var restcut = mant & ((1 << (shift - 1)) - 1)
+		var lastkept = mant & (1 << shift)
 		roundup = firstcut != 0 && (lastkept != 0 || restcut != 0)
 		mant >>= shift
 		exp = -Dblbias
@@ -91,9 +96,14 @@ const flt32assem = {sign, exp, mant
 	if exp <= -Fltbias && (mant & (1 << 23) != 0)
 		var roundup = false
 		var shift : uint32 = ((1 - Fltbias - exp) : uint32)
-		var firstcut = mant & (1 << shift)
-		var restcut = mant & ((1 << shift) - 1)
-		var lastkept = mant & (1 << (shift + 1))
+		/* less than half of the smallest denormal */
+		if shift > 24
+			mant = 0
+			shift = 1
+		;;
+		var firstcut = mant & (1 << (shift - 1))
+		var restcut = mant & ((1 << (shift - 1)) - 1)
+		var lastkept = mant & (1 << shift)
 		roundup = firstcut != 0 && (lastkept != 0 || restcut != 0)
 		mant >>= shift
 		exp = -Fltbias
-- 
2.43.0


From 5c5c1e6aa4937ab4a823959044c38f33dfd2cd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:34 +0000
Subject: [PATCH 042/218] fix: don't print a leading zero for floats just below
 a power of ten

---
 lib/std/fltfmt.myr | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/lib/std/fltfmt.myr b/lib/std/fltfmt.myr
index b0e3927..a0c5a7d 100644
--- a/lib/std/fltfmt.myr
+++ b/lib/std/fltfmt.myr
@@ -200,15 +200,13 @@ const dragon4 = {sb, isneg, f, e, p, mode, cutoff, scientific
 		while true
 			u = bigdup(s)
 			bigshli(u, 1)
-			match bigcmp(t, u)
-			| `Before:
+			if fits(t, u, roundup)
 				bigfree(u)
 				break
-			| _:
-				k++
-				bigmuli(s, 10)
-				bigfree(u)
 			;;
+			k++
+			bigmuli(s, 10)
+			bigfree(u)
 		;;
 
 		if mode == MNormal
@@ -258,12 +256,10 @@ const dragon4 = {sb, isneg, f, e, p, mode, cutoff, scientific
 
 		u = bigdup(s)
 		bigshli(u, 1)
-		match bigcmp(t, u)
-		| `Before:
+		if fits(t, u, roundup)
 			bigfree(t)
 			bigfree(u)
 			break
-		| _:
 		;;
 	;;
 
@@ -356,6 +352,15 @@ const dragon4 = {sb, isneg, f, e, p, mode, cutoff, scientific
 	bigfree(mp)
 }
 
+/* whether the upper margin stays below the next power of 10: it is itself a valid result only when rounding up */
+const fits = {high, pow, roundup
+	match bigcmp(high, pow)
+	| `Before:	-> true
+	| `Equal:	-> !roundup
+	| `After:	-> false
+	;;
+}
+
 const lowdig = {u
 	if u.dig.len > 0
 		-> u.dig[0]
-- 
2.43.0


From 4c69a3be357a3dd1b4b8533df28b68ec191456e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 043/218] fix: finish parsing options after a missing optional
 argument

---
 lib/std/optparse.myr | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/std/optparse.myr b/lib/std/optparse.myr
index ec6c59d..5823c04 100644
--- a/lib/std/optparse.myr
+++ b/lib/std/optparse.myr
@@ -133,6 +133,10 @@ const optnext = {ctx
 			put("Expected argument for '{}'\n", c)
 			optusage(ctx.optargs[0], ctx.optdef)
 			exit(1)
+		/* optional, and nothing follows */
+		else
+			arg = ""
+			next(ctx)
 		;;
 		match dest
 		| `std.Some d:	d# = arg
-- 
2.43.0


From 52c0602fadf6a839f30efa91bdf884fc35a41bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 044/218] fix: pass a lone - on as an argument

---
 lib/std/optparse.myr | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/std/optparse.myr b/lib/std/optparse.myr
index 5823c04..9079ab0 100644
--- a/lib/std/optparse.myr
+++ b/lib/std/optparse.myr
@@ -170,7 +170,8 @@ const next = {ctx
 	var i
 
 	for i = ctx.argidx + 1; i < ctx.optargs.len; i++
-		if !ctx.optdone && decode(ctx.optargs[i]) == '-'
+		/* a lone '-' is an argument */
+		if !ctx.optdone && ctx.optargs[i].len > 1 && decode(ctx.optargs[i]) == '-'
 			if eq(ctx.optargs[i], "--")
 				ctx.optdone = true
 			else
-- 
2.43.0


From 370b94e93b7cdd57955bc01dbb26f49d1824a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 045/218] fix: report bio read errors after the data that
 precedes them

---
 lib/bio/bio.myr | 66 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/lib/bio/bio.myr b/lib/bio/bio.myr
index d678c71..ccf02dc 100644
--- a/lib/bio/bio.myr
+++ b/lib/bio/bio.myr
@@ -141,8 +141,11 @@ const read = {f, dst
 	var d : byte[:]
 
 	std.assert(f.mode & Rd != 0, "File is not in read mode")
-	/* Clear the error state so we can retry */
-	if f.lasterr != 0
+	/*
+	Clear the error state so we can retry. Data that was read
+	before the error comes first.
+	*/
+	if f.lasterr != 0 && f.rstart == f.rend
 		-> `std.Err geterr(f)
 	;;
 
@@ -161,7 +164,14 @@ const read = {f, dst
 	*/
 	cap = f.rend - f.rstart
 	if dst.len < Small && cap < dst.len
-		fill(f, dst.len)
+		match fill(f, dst.len)
+		| `std.Err e:
+			if cap == 0
+				-> `std.Err e
+			;;
+			seterr(f, e)
+		| `std.Ok _:	/* nothing */
+		;;
 	;;
 	/* Read as much as we can from the buffer */
 	count = std.min(dst.len, f.rend - f.rstart)
@@ -176,7 +186,7 @@ const read = {f, dst
 
 	/* Read the rest directly from the fd */
 	d = dst[count:]
-	while d.len > 0
+	while d.len > 0 && f.lasterr == 0
 		match f.read(d)
 		| `std.Ok 0:
 			break
@@ -363,14 +373,14 @@ const readln = {f
 	while true
 		/* get at least delimiter count of characters */
 		match ensureread(f, 1)
-		| `std.Err `Eof:
+		| `std.Err e:
 			readinto(f, &ret, f.rend - f.rstart)
 			if ret.len > 0
+				seterr(f, e)
 				-> `std.Ok ret
 			else
-				-> `std.Err `Eof
+				-> `std.Err e
 			;;
-		| `std.Err e:	-> `std.Err e
 		| `std.Ok _:
 		;;
 		/* scan for delimiter */
@@ -380,8 +390,14 @@ const readln = {f
 				readinto(f, &ret, i - f.rstart)
 				f.rstart++
 				/* if we have '\r', we can get '\r\n'. */
-				if c == '\r' && unwrapc(peekc(f), -1) == '\n'
-					f.rstart++
+				if c == '\r'
+					match peekb(f)
+					| `std.Ok n:
+						if n == ('\n' : byte)
+							f.rstart++
+						;;
+					| `std.Err e:	seterr(f, e)
+					;;
 				;;
 				-> `std.Ok ret
 			;;
@@ -392,13 +408,6 @@ const readln = {f
 	std.die("unreachable")
 }
 
-const unwrapc = {cc, v
-	match cc
-	| `std.Ok c:	-> c
-	| _:	-> v
-	;;
-}
-
 const readdelim = {f, delim, mode
 	var ret, i, j
 
@@ -408,13 +417,14 @@ const readdelim = {f, delim, mode
 	;;
 	while true
 		match ensureread(f, delim.len)
-		| `std.Err `Eof:
+		| `std.Err e:
 			/* 
 			 * We tried to get a delimiter, but came short.
 			 * Return the whole end of the buffer as the
 			 * read value, as though there was a terminating
 			 * delimiter at the end. If we're at 0 bytes even
-			 * then, return an eof.
+			 * then, return an eof. Errors come after the data
+			 * before them.
 			 */
 			match mode
 			| `Drop:	f.rstart += f.rend - f.rstart
@@ -422,12 +432,11 @@ const readdelim = {f, delim, mode
 			| `Keep:	readinto(f, &ret, f.rend - f.rstart)
 			;;
 			match ret.len
-			| 0:	-> `std.Err `Eof
-			| _:	-> `std.Ok ret
+			| 0:	-> `std.Err e
+			| _:
+				seterr(f, e)
+				-> `std.Ok ret
 			;;
-		| `std.Err e:
-			std.slfree(ret)
-			-> `std.Err e
 		| `std.Ok _:	/* nothing: scan the buffer */
 		;;
 		for i = f.rstart; i <= f.rend - delim.len; i++
@@ -522,6 +531,8 @@ const ensureread = {f, n
 		| `std.Ok len:
 			if held + len >= n
 				-> `std.Ok len
+			elif f.lasterr != 0
+				-> `std.Err geterr(f)
 			else
 				-> `std.Err `Eof
 			;;
@@ -610,6 +621,15 @@ const geterr = {f
 	-> errtype(e)
 }
 
+/* saves an error, to report it after the data that came before it */
+const seterr = {f, e
+	match e
+	| `Eof:	/* found again by the next read */
+	| `Ebadf:	f.lasterr = std.Ebadf
+	| `Eio:	f.lasterr = std.Eio
+	;;
+}
+
 const errtype = {e : std.errno -> err
 	var errno
 
-- 
2.43.0


From cb6b2d249ddf4684f534b5154c626ee0f73d0ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 046/218] fix: report failures to flush from bio.write and
 bio.seek

---
 lib/bio/bio.myr | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/bio/bio.myr b/lib/bio/bio.myr
index ccf02dc..d33d2c4 100644
--- a/lib/bio/bio.myr
+++ b/lib/bio/bio.myr
@@ -87,7 +87,7 @@ const close = {f
 	var ok
 
 	ok = flush(f)
-	ok = ok && f.close()
+	ok = f.close() && ok
 	_free(f)
 	-> ok
 }
@@ -127,8 +127,14 @@ const write = {f, src
 		f.wend += src.len
 		-> `std.Ok src.len
 	else
-		flush(f)
-		-> writebuf(f, src)
+		match writebuf(f, f.wbuf[:f.wend])
+		| `std.Err e:
+			f.wend = 0
+			-> `std.Err e
+		| `std.Ok _:
+			f.wend = 0
+			-> writebuf(f, src)
+		;;
 	;;
 }
 
@@ -225,7 +231,14 @@ const flush = {f
 }
 
 const seek = {f, off
-	flush(f)
+	if f.mode & Wr != 0
+		match writebuf(f, f.wbuf[:f.wend])
+		| `std.Err e:
+			f.wend = 0
+			-> `std.Err e
+		| `std.Ok _:	f.wend = 0
+		;;
+	;;
 	f.rstart = f.rend = 0
 	match f.seek(off)
 	| `std.Ok ret:	-> `std.Ok ret
-- 
2.43.0


From 54ac687fc4e7c08706150e06ecaf17efc3c32810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 047/218] fix: zero-byte bio reads always succeed

---
 lib/bio/bio.myr | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/bio/bio.myr b/lib/bio/bio.myr
index d33d2c4..003e3d0 100644
--- a/lib/bio/bio.myr
+++ b/lib/bio/bio.myr
@@ -147,14 +147,6 @@ const read = {f, dst
 	var d : byte[:]
 
 	std.assert(f.mode & Rd != 0, "File is not in read mode")
-	/*
-	Clear the error state so we can retry. Data that was read
-	before the error comes first.
-	*/
-	if f.lasterr != 0 && f.rstart == f.rend
-		-> `std.Err geterr(f)
-	;;
-
 	/*
 	a zero byte read always succeeds, reading 0 bytes; since
 	there are an infinite number of zero byte reads you can do
@@ -164,6 +156,13 @@ const read = {f, dst
 	if dst.len == 0
 		-> `std.Ok dst
 	;;
+	/*
+	Clear the error state so we can retry. Data that was read
+	before the error comes first.
+	*/
+	if f.lasterr != 0 && f.rstart == f.rend
+		-> `std.Err geterr(f)
+	;;
 	/* 
 	small reads should try to fill, so we don't have to make a
 	syscall for every read
-- 
2.43.0


From 5865df0b5423f4875ab665d675cb0ba5fece4f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 048/218] fix: accept four-byte characters in regexes

---
 lib/regex/compile.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index f4eefaf..f7d9b01 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -396,7 +396,7 @@ const genchar = {re, c, ast
 	var n
 
 	n = std.encode(b[:], c)
-	std.assert(n > 0 && n < 4, "non-utf character in regex\n")
+	std.assert(n > 0 && n <= 4, "non-utf character in regex\n")
 	for var i = 0; i < n; i++
 		append(re, `Ibyte b[i], ast)
 	;;
-- 
2.43.0


From 4f8e8b25bdad77579215676a67dcd97b3e1f393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 049/218] fix: keep the larger end when merging regex ranges

---
 lib/regex/compile.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index f7d9b01..93acb0d 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -861,7 +861,7 @@ const merge = {rl
 	for r : rl[1:]
 		/* if it overlaps or abuts, merge */
 		if r[0] <= hi + 1
-			hi = r[1]
+			hi = std.max(hi, r[1])
 		else
 			std.slpush(&ret, [lo, hi])
 			lo = r[0]
-- 
2.43.0


From 5a095c0839b20de5ef4762450807179682d9f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 050/218] fix: negate regex classes touching the first or last
 character

---
 lib/regex/compile.myr | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index 93acb0d..37afffa 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -837,13 +837,16 @@ const negate = {rng
 
 	neg = [][:]
 	start = 0
-	next = 0 /* if we have no ranges */
 	for r : rng
 		(end, next) = (r[0], r[1])
-		std.slpush(&neg, [start, end - 1])
+		if end > start
+			std.slpush(&neg, [start, end - 1])
+		;;
 		start = next + 1
 	;;
-	std.slpush(&neg, [next + 1, std.Maxcharval])
+	if start <= std.Maxcharval
+		std.slpush(&neg, [start, std.Maxcharval])
+	;;
 	-> neg
 }
 
-- 
2.43.0


From 177be36083a7d48e902e653a6fadadd59a449ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 051/218] fix: split regex ranges into independent byte ranges

---
 lib/regex/compile.myr | 59 +++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index 37afffa..1799df6 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -163,28 +163,21 @@ const gen = {re, t
 }
 
 const genranges = {re, sl, ast
-	var lbuf : byte[4], hbuf : byte[4], boundbuf : byte[4]
-	var lsz, hsz, bsz, i
+	var lo, hi
 	var rt : rangetrie#
 
 	/* generate a trie of ranges */
 	rt = std.zalloc()
 	for r : sl
-		/* 
-		encode:
-			lo => bounds[loidx] - 1
-			bounds[loidx] => bounds[loidx + 1] - 1
-			...
-			bounds[hiidx - 1] => hi
-		*/
-		lsz = std.encode(lbuf[:], r[0])
-		hsz = std.encode(hbuf[:], r[1])
-		for i = lsz; i < hsz; i++
-			bsz = bound(boundbuf[:], i, 0xff)
-			rtinsert(rt, lbuf[:lsz], boundbuf[:bsz])
-			lsz = bound(lbuf[:], i + 1, 0x00)
+		/* split by encoded length */
+		lo = r[0]
+		for max : [0x7f, 0x7ff, 0xffff, std.Maxcharval][:]
+			hi = std.min(r[1], max)
+			if lo <= hi
+				splitrange(rt, lo, hi)
+				lo = hi + 1
+			;;
 		;;
-		rtinsert(rt, lbuf[:lsz], hbuf[:hsz])
 	;;
 	if re.trace
 		rtdump(rt, 0)
@@ -194,19 +187,31 @@ const genranges = {re, sl, ast
 	-> re.proglen
 }
 
-const bound = {buf, len, fill
-	var s
-
-	if len == 1
-		buf[0] = 0x7f
-	else
-		s = (len : byte)
-		buf[0] = (0xff << (8 - s)) | (fill >> (s + 1))
-		for var i = 1; i < len; i++
-			buf[i] = 0x80 | (fill >> 2)
+/*
+inserts a range of characters encoded in the same number of bytes, split
+so that the bytes of each part vary independently of each other.
+*/
+const splitrange = {rt, lo : char, hi : char
+	var lbuf : byte[4], hbuf : byte[4]
+	var lsz, hsz, mask
+
+	for var i = 1; i < std.charlen(lo); i++
+		mask = (1 << (6*(i : uint32)) : char) - 1
+		if lo & ~mask != hi & ~mask
+			if lo & mask != 0
+				splitrange(rt, lo, lo | mask)
+				splitrange(rt, (lo | mask) + 1, hi)
+				-> void
+			elif hi & mask != mask
+				splitrange(rt, lo, (hi & ~mask) - 1)
+				splitrange(rt, hi & ~mask, hi)
+				-> void
+			;;
 		;;
 	;;
-	-> len
+	lsz = std.encode(lbuf[:], lo)
+	hsz = std.encode(hbuf[:], hi)
+	rtinsert(rt, lbuf[:lsz], hbuf[:hsz])
 }
 
 type rangetrie = struct
-- 
2.43.0


From 28b15f4fac9cb742d368708ac589218be29b0416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 052/218] fix: report unterminated regex classes

---
 lib/regex/compile.myr | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index 1799df6..9a348ee 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -825,6 +825,9 @@ const rangematch = {re, sl
 
 	lo = getc(re)
 	if matchc(re, '-')
+		if re.idx == re.pat.len
+			-> sl
+		;;
 		hi = getc(re)
 		if lo <= hi
 			-> std.slpush(&sl, [lo, hi])
@@ -895,7 +898,9 @@ const getc = {re
 	var c
 
 	c = std.decode(re.pat[re.idx:])
-	re.idx += std.charlen(c)
+	if re.idx < re.pat.len
+		re.idx += std.charlen(c)
+	;;
 	-> c
 }
 
-- 
2.43.0


From df01d8c0d0b33821682b52324a3e316f77eef761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 053/218] fix: accept escapes of all regex metacharacters

---
 lib/regex/compile.myr | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index 9a348ee..5aaf283 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -692,6 +692,11 @@ const escaped = {re
 	| '+':	ret = `Some mk(re, `Chr '+', idx)
 	| '?':	ret = `Some mk(re, `Chr '?', idx)
 	| '*':	ret = `Some mk(re, `Chr '*', idx)
+	| '|':	ret = `Some mk(re, `Chr '|', idx)
+	| '(':	ret = `Some mk(re, `Chr '(', idx)
+	| '[':	ret = `Some mk(re, `Chr '[', idx)
+	| ']':	ret = `Some mk(re, `Chr ']', idx)
+	| '\\':	ret = `Some mk(re, `Chr '\\', idx)
 
 	/* escaped nonprintable characters */
 	| 'r':	ret = `Some mk(re, `Chr '\r', idx)
-- 
2.43.0


From 9aee421cf3c97bda829cb4088dfe1e3bc0f6b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 054/218] fix: use the title-case table for \p{Lt}

---
 lib/regex/compile.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index 5aaf283..4e2a104 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -763,7 +763,7 @@ const unicodeclass = {re, neg
 	elif std.eq(s, "Ll") || std.eq(s, "Lowercase_Letter")
 		tab = _ranges.tablower[:]
 	elif std.eq(s, "Lt") || std.eq(s, "Titlecase_Letter")
-		tab = _ranges.tablower[:]
+		tab = _ranges.tabtitle[:]
 	/* numbers (incomplete) */
 	elif std.eq(s, "N") || std.eq(s, "Number")
 		tab = _ranges.tabdigit[:]
-- 
2.43.0


From 9f7b9bc72bd56f19c610217c99c5162a35f09b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 055/218] fix: reject out of range \u escapes in regexes

---
 lib/regex/compile.myr | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index 4e2a104..6ae9d9f 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -720,6 +720,9 @@ const unichar = {re, idx
 	while std.isxdigit(peekc(re))
 		c *= 16
 		c += std.charval(getc(re), 16)
+		if c > std.Maxcharval
+			-> `Err `Badescape 'u'
+		;;
 	;;
 	if !matchc(re, '}')
 		-> `Err `Badescape 'u'
-- 
2.43.0


From b291e840a1261e2763e8c5fc35470d6e937b7dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 056/218] fix: reject regexes with too many groups

---
 lib/regex/compile.myr | 3 +++
 lib/regex/types.myr   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index 6ae9d9f..69ad68f 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -629,6 +629,9 @@ const baseexpr = {re
 			;;
 			nocap = true
 		else
+			if re.nmatch == Maxgroup
+				-> `Err `Noimpl
+			;;
 			m = re.nmatch++
 		;;
 		match altexpr(re)
diff --git a/lib/regex/types.myr b/lib/regex/types.myr
index 4d65031..2e9a004 100644
--- a/lib/regex/types.myr
+++ b/lib/regex/types.myr
@@ -63,6 +63,9 @@ pkg regex =
 		`Eow	/* end of word */
 	;;
 
+	/* the number of capture groups, including the whole match */
+	pkglocal const Maxgroup	: std.size = 16
+
 	pkglocal type rethread = struct
 		next	: rethread#	/* run queue link */
 
-- 
2.43.0


From 8b6151b5f59243d045ab85c5b957373f774d51ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 057/218] fix: make empty regex classes match nothing

---
 lib/regex/compile.myr | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index 69ad68f..b8a9b04 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -166,6 +166,12 @@ const genranges = {re, sl, ast
 	var lo, hi
 	var rt : rangetrie#
 
+	/* a class excluding every character matches nothing */
+	if sl.len == 0
+		append(re, `Irange (0xff, 0), ast)
+		-> re.proglen
+	;;
+
 	/* generate a trie of ranges */
 	rt = std.zalloc()
 	for r : sl
-- 
2.43.0


From a603164c0ee32da4b6a1b6a764369e1c68119760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 058/218] fix: find the start of the preceding character

---
 lib/regex/interp.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/regex/interp.myr b/lib/regex/interp.myr
index 0ec7b29..efb1d16 100644
--- a/lib/regex/interp.myr
+++ b/lib/regex/interp.myr
@@ -488,7 +488,7 @@ const itrace = {re, thr, inst
 const prevchar = {s, i
 	std.assert(i != 0, "prevchar must be called with i >= 1\n")
 	i--
-	while i != 0 && s[i] >= 0x80
+	while i != 0 && s[i] & 0xc0 == 0x80
 		i--
 	;;
 	-> s[i:]
-- 
2.43.0


From c5054fe58adf5ce5c5ef9570d8f53578dc2c40c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 059/218] fix: clear unset regex groups

---
 lib/regex/interp.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/regex/interp.myr b/lib/regex/interp.myr
index efb1d16..a7390c7 100644
--- a/lib/regex/interp.myr
+++ b/lib/regex/interp.myr
@@ -148,7 +148,7 @@ const getmatches = {re, thr
 	;;
 
 	i = 0
-	ret = std.slalloc(re.nmatch)
+	ret = std.slzalloc(re.nmatch)
 	for [lo, hi] : thr.mgroup[:re.nmatch]
 		if lo != -1 && hi != -1
 			ret[i] = re.str[lo : hi]
-- 
2.43.0


From 73942550f77bd1389a53f08c6bf42be412a9398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 060/218] fix: forget the tail of the freed threads

---
 lib/regex/interp.myr | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/regex/interp.myr b/lib/regex/interp.myr
index a7390c7..0d492f8 100644
--- a/lib/regex/interp.myr
+++ b/lib/regex/interp.myr
@@ -128,6 +128,7 @@ const cleanup = {re, result
 	std.free(result)
 	re.runq = Zthr
 	re.expired = Zthr
+	re.expiredtail = Zthr
 	re.free = Zthr
 	re.nfree = 0
 	re.nthr = 0
-- 
2.43.0


From b22b9a04203fd0604d28bf3589418e8f01bed784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 061/218] fix: cull regex threads at every instruction

---
 lib/regex/interp.myr | 48 ++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/lib/regex/interp.myr b/lib/regex/interp.myr
index 0d492f8..9767ea1 100644
--- a/lib/regex/interp.myr
+++ b/lib/regex/interp.myr
@@ -186,7 +186,6 @@ const run = {re, str, idx, wholestr
 	var consumed
 	var states
 	var thr
-	var ip
 
 	re.str = str
 	re.strp = 0
@@ -222,7 +221,6 @@ const run = {re, str, idx, wholestr
 			thr = re.runq
 			re.runq = thr.next
 
-			ip = thr.ip
 			/* 
 			  Stepping continues until the first
 			  non-consuming operator is seen. This
@@ -232,23 +230,24 @@ const run = {re, str, idx, wholestr
 			  threads have seen what they need
 			  to, and we can terminate them.
 			 */
-			consumed = step(re, thr, -1)
+			consumed = false
 			while !consumed
-				consumed = step(re, thr, ip)
-			;;
-
-			/*
-			 * Because threads have no memory,
-			 * their ip (and current input
-			 * character, which is the same
-			 * thanks to the above mentioned
-			 * lockstep) uniquely identify them.
-			 * As a result, if we have two
-			 * threads with the same ip, one of
-			 * them can be culled.
-			 */
-			if std.bshas(states, thr.ip)
-				die(re, thr)
+				/*
+				 * Because threads have no memory,
+				 * their ip (and current input
+				 * character, which is the same
+				 * thanks to the above mentioned
+				 * lockstep) uniquely identify them.
+				 * As a result, if we have two
+				 * threads with the same ip, one of
+				 * them can be culled.
+				 */
+				if std.bshas(states, thr.ip)
+					die(re, thr)
+					break
+				;;
+				std.bsput(states, thr.ip)
+				consumed = step(re, thr)
 			;;
 
 			if thr.dead
@@ -267,7 +266,6 @@ const run = {re, str, idx, wholestr
 					thrfree(re, thr)
 				;;
 			elif !thr.matched
-				std.bsput(states, thr.ip)
 				if re.expired == Zthr
 					re.expired = thr
 				;;
@@ -310,7 +308,7 @@ const run = {re, str, idx, wholestr
  * operating over the same characters, and finishing
  * at the same time.
  */
-const step = {re, thr, curip
+const step = {re, thr
 	var str, nthr, inst
 
 	str = re.str
@@ -344,12 +342,10 @@ const step = {re, thr, curip
 	| OpFork:
 		var lip = ((inst >>  4) & 0x3fffffff : std.size)
 		var rip = ((inst >> 34) & 0x3fffffff : std.size)
-		if rip != curip
-			nthr = mkthread(re, rip)
-			nthr.next = re.runq
-			nthr.mgroup = thr.mgroup
-			re.runq = nthr
-		;;
+		nthr = mkthread(re, rip)
+		nthr.next = re.runq
+		nthr.mgroup = thr.mgroup
+		re.runq = nthr
 		if re.debug
 			std.slpush(&re.traces, std.bsdup(re.traces[thr.tid]))
 		;;
-- 
2.43.0


From b61ecb4f378f2af67b809ea71df7a6abe015f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 062/218] fix: match regexes in the context of the whole string

---
 lib/regex/interp.myr | 75 +++++++++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/lib/regex/interp.myr b/lib/regex/interp.myr
index 9767ea1..63481f5 100644
--- a/lib/regex/interp.myr
+++ b/lib/regex/interp.myr
@@ -37,27 +37,28 @@ const iexec = {re, str
 }
 
 const search = {re, str
-	var thr = Zthr
-
-	for var i = 0; i < str.len; i++
-		thr = run(re, str[i:], 0, false)
-		if thr != Zthr
-			break
-		;;
-	;;
-	-> getmatches(re, thr)
+	-> getmatches(re, find(re, str, 0))
 }
 
 const isearch = {re, str
-	var thr = Zthr
+	-> getidxmatches(re, find(re, str, 0))
+}
+
+/* finds the first match in str starting at or after idx */
+const find = {re, str, idx
+	var thr
 
-	for var i = 0; i < str.len; i++
-		thr = run(re, str[i:], 0, false)
+	for var i = idx; i <= str.len; i++
+		/* matches don't start inside of a character */
+		if i < str.len && str[i] & 0xc0 == 0x80
+			continue
+		;;
+		thr = run(re, str, i, false)
 		if thr != Zthr
-			break
+			-> thr
 		;;
 	;;
-	-> getidxmatches(re, thr)
+	-> Zthr
 }
 
 const sub = {re, str, subst
@@ -72,7 +73,12 @@ const sub = {re, str, subst
 
 const sbsub = {sb, re, str, subst
 	std.assert(re.nmatch == subst.len + 1, "substitution length does not match capture count")
-	-> dosubst(sb, re, run(re, str, 0, true), str, subst)
+	var thr, ret
+
+	thr = run(re, str, 0, true)
+	ret = dosubst(sb, re, thr, str, 0, subst)
+	cleanup(re, thr)
+	-> ret
 }
 
 const suball = {re, str, subst
@@ -84,34 +90,45 @@ const suball = {re, str, subst
 }
 
 const sbsuball = {sb, re, str, subst
-	var thr, len, i
+	var thr, i, start, end
 
 	std.assert(re.nmatch == subst.len + 1, "substitution length does not match capture count")
 	i = 0
-	while i < str.len
-		thr = run(re, str[i:], 0, false)
+	end = -1
+	while true
+		thr = find(re, str, i)
 		if thr == Zthr
+			std.sbputs(sb, str[i:])
+			break
+		;;
+		start = thr.mgroup[0][0]
+		std.sbputs(sb, str[i:start])
+		/* an empty match at the end of the last one is part of it */
+		if start != end || thr.mgroup[0][1] != end
+			end = thr.mgroup[0][1]
+			dosubst(sb, re, thr, str[:end], start, subst)
+		;;
+		cleanup(re, thr)
+		i = end
+		if start == end
+			/* step over a character to make progress */
+			if i == str.len
+				break
+			;;
 			std.sbputb(sb, str[i])
 			i++
-		else
-			len = thr.mgroup[0][1]
-			dosubst(sb, re, thr, str[i:len + i], subst)
-			i += len
 		;;
-		cleanup(re, thr)
 	;;
 }
 
 
-const dosubst = {sb, re, thr, str, subst
-	var off
-
+const dosubst = {sb, re, thr, str, off, subst
 	if thr == Zthr
 		-> false
 	;;
-	off = 0
 	for var i = 1; i < re.nmatch; i++
-		if thr.mgroup[i][0] != -1 && thr.mgroup[i][1] != -1
+		/* groups within a group that was replaced are gone */
+		if thr.mgroup[i][0] >= off && thr.mgroup[i][1] != -1
 			std.sbputs(sb, str[off:thr.mgroup[i][0]])
 			std.sbputs(sb, subst[i - 1])
 			off = thr.mgroup[i][1]
@@ -188,7 +205,7 @@ const run = {re, str, idx, wholestr
 	var thr
 
 	re.str = str
-	re.strp = 0
+	re.strp = idx
 	re.nexttid = 0
 
 	bestmatch = Zthr
-- 
2.43.0


From 2eec73e6bf0dd9d0289ecb972e58668c2e40cd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 063/218] fix: end no word at the start of a string

---
 lib/regex/interp.myr | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/regex/interp.myr b/lib/regex/interp.myr
index 63481f5..697b826 100644
--- a/lib/regex/interp.myr
+++ b/lib/regex/interp.myr
@@ -410,10 +410,7 @@ const step = {re, thr
 			die(re, thr)
 		;;
 	| OpEow:
-		if re.strp == str.len && iswordchar(prevchar(str, re.strp))
-			thr.ip++
-			-> false
-		elif re.strp > 0 && !iswordchar(str[re.strp:]) && iswordchar(prevchar(str, re.strp))
+		if re.strp > 0 && !iswordchar(str[re.strp:]) && iswordchar(prevchar(str, re.strp))
 			thr.ip++
 			-> false
 		else
-- 
2.43.0


From 233caabba06deb149fe98f1a50513cbafad050ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 064/218] fix: report unterminated regex class names

---
 lib/regex/compile.myr | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index b8a9b04..d949ace 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -763,6 +763,9 @@ const unicodeclass = {re, neg
 			;;
 			n += std.charlen(c)
 		;;
+		if s.len == n
+			-> `Err (`Unbalanced '{')
+		;;
 	| r:
 		n += std.charlen(r)
 	;;
-- 
2.43.0


From 2750a1b7d425c2e2e3985f7cf970619d83332aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 065/218] fix: leave the nesting level of empty JSON containers

---
 lib/json/parse.myr | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/json/parse.myr b/lib/json/parse.myr
index cf6eb21..b53dba6 100644
--- a/lib/json/parse.myr
+++ b/lib/json/parse.myr
@@ -102,6 +102,7 @@ const parseobj = {p
 	takespace(p)
 	if peekc(p) == '}'
 		takec(p)
+		exit(p)
 		-> `std.Ok std.mk(`Obj membs)
 	;;
 	while peekc(p) != '}'
@@ -174,6 +175,7 @@ const parsearr = {p -> std.result(elt#, err)
 	takespace(p)
 	if peekc(p) == ']'
 		takec(p)
+		exit(p)
 		-> `std.Ok std.mk(`Arr elts)
 	;;
 	while true
-- 
2.43.0


From 4c68bb14c9789a151c3ee4da68f08b49a87efa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 066/218] fix: reject JSON objects ending in a comma

---
 lib/json/parse.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/parse.myr b/lib/json/parse.myr
index b53dba6..113cba6 100644
--- a/lib/json/parse.myr
+++ b/lib/json/parse.myr
@@ -105,7 +105,7 @@ const parseobj = {p
 		exit(p)
 		-> `std.Ok std.mk(`Obj membs)
 	;;
-	while peekc(p) != '}'
+	while true
 		match member(p)
 		| `std.Ok m:
 			std.slpush(&membs, m)
-- 
2.43.0


From 072db082754f446924b61150d412d1b93e7bd9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 067/218] fix: decode JSON unicode escapes

---
 lib/json/parse.myr | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/lib/json/parse.myr b/lib/json/parse.myr
index 113cba6..396bebd 100644
--- a/lib/json/parse.myr
+++ b/lib/json/parse.myr
@@ -330,19 +330,43 @@ const jsonstr = {p
 }
 
 const unichar = {p
-	var c, i
+	var hi, idx, off
+
+	match hexchar(p)
+	| `std.Some c:	hi = c
+	| `std.None:	-> `std.None
+	;;
+	/* chars outside of the basic plane are a pair of surrogates */
+	if hi >= 0xd800 && hi <= 0xdbff && std.hasprefix(p.str[p.idx:], "\\u")
+		idx = p.idx
+		off = p.off
+		takec(p)
+		takec(p)
+		match hexchar(p)
+		| `std.Some lo:
+			if lo >= 0xdc00 && lo <= 0xdfff
+				-> `std.Some (0x10000 + ((hi - 0xd800) << 10) + (lo - 0xdc00))
+			;;
+			p.idx = idx
+			p.off = off
+		| `std.None:
+			-> `std.None
+		;;
+	;;
+	-> `std.Some hi
+}
+
+const hexchar = {p -> std.option(char)
+	var c : char
 
 	c = 0
 	/* must be exactly 4 hex digits */
-	for i = 0; i < 4; i++
+	for var i = 0; i < 4; i++
 		match std.charval(takec(p), 16)
 		| -1:	-> `std.None
-		| n:	c += n*16
+		| n:	c = c*16 + n
 		;;
 	;;
-	if i == 0
-		-> `std.None
-	;;
 	-> `std.Some c
 }
 
-- 
2.43.0


From 22405b6061f67ec9c929ded8780348ad3d5dafe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 068/218] fix: escape quotes and control characters in JSON
 strings

---
 lib/json/fmt.myr | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/json/fmt.myr b/lib/json/fmt.myr
index cb7815b..30cf01f 100644
--- a/lib/json/fmt.myr
+++ b/lib/json/fmt.myr
@@ -36,10 +36,16 @@ const jstrfmt = {sb, str
 		match (c : char)
 		| '\x0c':	std.sbputs(sb, "\\f")
 		| '\\':	std.sbputs(sb, "\\\\")
+		| '"':	std.sbputs(sb, "\\\"")
 		| '\n': std.sbputs(sb, "\\n")
 		| '\r':	std.sbputs(sb, "\\r")
 		| '\t': std.sbputs(sb, "\\t")
-		| _:	std.sbputb(sb, c)
+		| _:
+			if c < 0x20
+				std.sbfmt(sb, "\\u{w=4,p=0,x}", c)
+			else
+				std.sbputb(sb, c)
+			;;
 		;;
 	;;
 	std.sbputs(sb, "\"")
-- 
2.43.0


From cb6f73760d12a7bc0a1d7454f7fd485a5fbc95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 069/218] fix: count all characters in JSON error positions

---
 lib/json/parse.myr | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/json/parse.myr b/lib/json/parse.myr
index 396bebd..f0d9386 100644
--- a/lib/json/parse.myr
+++ b/lib/json/parse.myr
@@ -272,6 +272,7 @@ const parsenum = {p
 		;;
 	;;
 
+	p.off += p.idx - start
 	-> std.flt64parse(p.str[start:p.idx])
 }
 
@@ -373,6 +374,7 @@ const hexchar = {p -> std.option(char)
 const matchprefix = {p, pfx
 	if std.hasprefix(p.str[p.idx:], pfx)
 		p.idx += pfx.len
+		p.off += pfx.len
 		-> true
 	;;
 	-> false
@@ -387,9 +389,9 @@ const unescaped = {c
 const takespace = {p
 	while p.idx < p.str.len
 		match (p.str[p.idx] : char)
-		| ' ':
-		| '\t':
-		| '\r':
+		| ' ':	p.off++
+		| '\t':	p.off++
+		| '\r':	p.off++
 		| '\n':
 			p.line++
 			p.off=1
-- 
2.43.0


From 6cdfac87826fa578dd3ca1f8ab8fa5146eac3b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 070/218] fix: compare ini keys with each other

---
 lib/inifile/types.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/inifile/types.myr b/lib/inifile/types.myr
index d91f7e1..ad025b1 100644
--- a/lib/inifile/types.myr
+++ b/lib/inifile/types.myr
@@ -31,7 +31,7 @@ impl std.equatable (byte[:], byte[:]) =
 		var s2, k2
 
 		(s1, k1) = a
-		(s2, k2) = a
+		(s2, k2) = b
 		-> std.eq(s1, s2) && std.eq(k1, k2)
 	}
 ;;
-- 
2.43.0


From 345394d86ccebf4ff920dc99bbabd0261b1f8ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 071/218] fix: copy ini values before freeing the old one

---
 lib/inifile/access.myr | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/inifile/access.myr b/lib/inifile/access.myr
index 1af4fad..c934193 100644
--- a/lib/inifile/access.myr
+++ b/lib/inifile/access.myr
@@ -37,13 +37,18 @@ const has = {ini, sect, key
 }
 
 const put = {ini, sect, key, val
+	var old
+
+	val = std.sldup(val)
+	old = ""
 	if std.hthas(ini.elts, (sect, key))
-		std.slfree(std.htgetv(ini.elts, (sect, key), ""))
+		old = std.htgetv(ini.elts, (sect, key), "")
 	else
 		sect = std.sldup(sect)
 		key = std.sldup(key)
 	;;
-	std.htput(ini.elts, (sect, key), std.sldup(val))
+	std.htput(ini.elts, (sect, key), val)
+	std.slfree(old)
 }
 
 const bysection = {ini
-- 
2.43.0


From 08591901a6084d2548d9eebcc0e113e82bc615cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 072/218] fix: list sections created by put

---
 lib/inifile/access.myr | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/inifile/access.myr b/lib/inifile/access.myr
index c934193..c042aaf 100644
--- a/lib/inifile/access.myr
+++ b/lib/inifile/access.myr
@@ -46,6 +46,13 @@ const put = {ini, sect, key, val
 	else
 		sect = std.sldup(sect)
 		key = std.sldup(key)
+		match std.lsearch(ini.sects, sect, std.strcmp)
+		| `std.Some _:	/* nothing */
+		| `std.None:
+			if sect.len > 0
+				std.slpush(&ini.sects, std.sldup(sect))
+			;;
+		;;
 	;;
 	std.htput(ini.elts, (sect, key), val)
 	std.slfree(old)
-- 
2.43.0


From 39c30df27c369e8ad415b1493e22388063cd9df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 073/218] fix: strip ini lines after removing comments

---
 lib/inifile/parse.myr | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/inifile/parse.myr b/lib/inifile/parse.myr
index 6276cf8..d390b66 100644
--- a/lib/inifile/parse.myr
+++ b/lib/inifile/parse.myr
@@ -77,8 +77,6 @@ const loadf = {fd
 }
 
 const parseline = {p, ini, ln
-	ln = std.strstrip(ln)
-
 	/* remove comments */
 	match std.strfind(ln, ";")
 	| `std.Some idx:	ln = ln[:idx]
@@ -88,6 +86,7 @@ const parseline = {p, ini, ln
 	| `std.Some idx:	ln = ln[:idx]
 	| `std.None:
 	;;
+	ln = std.strstrip(ln)
 
 	/* skip empty lines */
 	if ln.len == 0
-- 
2.43.0


From a16a0006d70985b6f60d8b626cc5d27297d12f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 074/218] fix: close loaded ini files

---
 lib/inifile/parse.myr | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/inifile/parse.myr b/lib/inifile/parse.myr
index d390b66..68c54e9 100644
--- a/lib/inifile/parse.myr
+++ b/lib/inifile/parse.myr
@@ -18,8 +18,13 @@ type parser = struct
 ;;
 
 const load = {path
-	match std.open(path, std.Oread)
-	| `std.Ok fd:	-> loadf(fd)
+	var ret
+
+	match bio.open(path, bio.Rd)
+	| `std.Ok f:
+		ret = loadbio(f)
+		bio.close(f)
+		-> ret
 	| `std.Err e:	-> `std.Err `Fileerr
 	;;
 }
@@ -39,9 +44,12 @@ const free = {ini
 }
 
 const loadf = {fd
+	-> loadbio(bio.mkfile(fd, bio.Rd))
+}
+
+const loadbio = {f
 	var p : parser#
 	var ini
-	var f
 
 	ini = std.mk([
 		.elts = std.mkht()
@@ -51,7 +59,6 @@ const loadf = {fd
 		.sect = "",
 		.err = `std.None
 	])
-	f = bio.mkfile(fd, bio.Rd)
 	while true
 		match bio.readln(f)
 		| `std.Err `bio.Eof:
-- 
2.43.0


From 90e5821c0a05210cd8b35f36538d2e9d2cfe3894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 075/218] fix: report failures to write ini files

---
 lib/inifile/write.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/inifile/write.myr b/lib/inifile/write.myr
index f4d604e..bd9bb33 100644
--- a/lib/inifile/write.myr
+++ b/lib/inifile/write.myr
@@ -15,7 +15,7 @@ const write = {ini, path
 	| `std.Err e:	-> false
 	| `std.Ok f:
 		ret = writeini(f, ini)
-		bio.close(f)
+		ret = bio.close(f) && ret
 	;;
 	-> ret
 }
@@ -25,7 +25,7 @@ const writef = {ini, fd
 
 	f = bio.mkfile(fd, bio.Wr)
 	ret = writeini(f, ini)
-	bio.close(f)
+	ret = bio.close(f) && ret
 	-> ret
 }
 
-- 
2.43.0


From 9e39cc3c8fd4c2ebbec7b265dce38f343c3f068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 076/218] fix: keep weekdays in range

---
 lib/date/date.myr | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/date/date.myr b/lib/date/date.myr
index bbfd326..c52997c 100644
--- a/lib/date/date.myr
+++ b/lib/date/date.myr
@@ -105,6 +105,9 @@ const mkinstantoff = {tm, tz, tzoff
 
 	/* weekday */
 	inst.wday = ((e + 4) % 7 : int)	/* the world started on Thursday */
+	if inst.wday < 0
+		inst.wday += 7
+	;;
 
 	/*
 	split up year, month, day.
-- 
2.43.0


From 2efd931c9a01187bb6a32e5f141dfceccad47aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 077/218] fix: carry months into years

---
 lib/date/date.myr | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/date/date.myr b/lib/date/date.myr
index c52997c..0005d76 100644
--- a/lib/date/date.myr
+++ b/lib/date/date.myr
@@ -215,12 +215,19 @@ const recalc = {inst
 	var y, m, d
 
 
-	if inst.mon > 2
-		m = (inst.mon - 3 : std.time)
-		y = (inst.year : std.time)
+	/* adding a period may have left the month out of range */
+	m = (inst.mon - 1 : std.time)
+	y = (inst.year : std.time) + m / 12
+	m %= 12
+	if m < 0
+		m += 12
+		y--
+	;;
+	if m >= 2
+		m -= 2
 	else
-		m = (inst.mon + 9 : std.time)
-		y = (inst.year - 1 : std.time)
+		m += 10
+		y--
 	;;
 	d = (inst.day : std.time)
 
-- 
2.43.0


From e9d966c1a94a56ec1a7c4ce9c5a2e5fb57dd09f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 078/218] fix: take the zone offset into account when adding
 periods

---
 lib/date/date.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/date/date.myr b/lib/date/date.myr
index 0005d76..f6e7fc3 100644
--- a/lib/date/date.myr
+++ b/lib/date/date.myr
@@ -191,7 +191,7 @@ const addperiod = {inst, p
 	| `Minute m:	inst.m += m
 	| `Second s:	inst.s += s
 	;;
-	-> mkinstantoff(recalc(&inst), inst.tzname, inst.tzoff)
+	-> mkinstantoff(recalc(&inst) - (inst.tzoff : std.time), inst.tzname, inst.tzoff)
 }
 
 const subperiod = {inst, p
@@ -203,7 +203,7 @@ const subperiod = {inst, p
 	| `Minute m:	inst.m -= m
 	| `Second s:	inst.s -= s
 	;;
-	-> mkinstantoff(recalc(&inst), inst.tzname, inst.tzoff)
+	-> mkinstantoff(recalc(&inst) - (inst.tzoff : std.time), inst.tzname, inst.tzoff)
 }
 
 const duration = {a, b
-- 
2.43.0


From 243980380211ec8984779da1466f77ff685bfe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 079/218] fix: make dates in the given zone

---
 lib/date/date.myr | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/date/date.myr b/lib/date/date.myr
index f6e7fc3..a04a1e5 100644
--- a/lib/date/date.myr
+++ b/lib/date/date.myr
@@ -25,6 +25,7 @@ pkg date =
 	const duration	: (a : instant, b : instant	-> duration)
 
 	pkglocal const recalc	: (inst : instant# -> std.time)
+	pkglocal const localtzoff	: (tz : byte[:], tm : std.time -> std.option(duration))
 ;;
 
 const Days400y	= 365*400 + 4*25 - 3
@@ -48,7 +49,7 @@ const tozone = {d, tz
 }
 
 const mkdate = {y, m, d, tz
-	-> mkinstant(recalc(&[.year=y, .mon=m, .day=d]), tz)
+	-> mkdatetime(y, m, d, 0, 0, 0, tz)
 }
 
 const mkdatetime = {year, mon, day, h, m, s, tz
@@ -57,14 +58,22 @@ const mkdatetime = {year, mon, day, h, m, s, tz
 	tm = recalc(&[.year=year, .mon=mon, .day=day,
 		.h=h, .m=m, .s=s,])
 
-	match _zoneinfo.findtzoff(tz, tm)
+	match localtzoff(tz, tm)
 	| `std.Some off:
-		-> mkinstantoff(tm, tz, off)
+		-> mkinstantoff(tm - (off : std.time), tz, off)
 	| `std.None:
 		std.fatal("invalid timezone {}\n", tz)
 	;;
 }
 
+/* finds the offset in effect when the clocks in the zone show tm */
+const localtzoff = {tz, tm
+	match _zoneinfo.findtzoff(tz, tm)
+	| `std.Some off:	-> _zoneinfo.findtzoff(tz, tm - (off : std.time))
+	| `std.None:	-> `std.None
+	;;
+}
+
 const mkinstant = {tm, tz
 	match _zoneinfo.findtzoff(tz, tm)
 	| `std.Some o:	-> mkinstantoff(tm, tz, o)
-- 
2.43.0


From 284319b698965298cccde34316aaee5a261f8566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 080/218] fix: keep the zone names of instants

---
 lib/date/date.myr  | 21 ++++++++++++++++++---
 lib/date/parse.myr |  6 +-----
 lib/date/types.myr |  1 -
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/lib/date/date.myr b/lib/date/date.myr
index a04a1e5..feff604 100644
--- a/lib/date/date.myr
+++ b/lib/date/date.myr
@@ -24,6 +24,7 @@ pkg date =
 
 	const duration	: (a : instant, b : instant	-> duration)
 
+	pkglocal const internzone	: (tz : byte[:] -> byte[:])
 	pkglocal const recalc	: (inst : instant# -> std.time)
 	pkglocal const localtzoff	: (tz : byte[:], tm : std.time -> std.option(duration))
 ;;
@@ -88,9 +89,7 @@ const mkinstantoff = {tm, tz, tzoff
 
 	inst.actual = tm
 	/* time zones */
-	std.assert(tz.len <= inst._tzbuf.len, "time zone name too long\n")
-	std.slcp(inst._tzbuf[:tz.len], tz)
-	inst.tzname = inst._tzbuf[:tz.len]
+	inst.tzname = internzone(tz)
 	inst.tzoff = tzoff
 	tm += (inst.tzoff : std.time)
 
@@ -168,6 +167,22 @@ const mkinstantoff = {tm, tz, tzoff
 	-> inst
 }
 
+/* instants are values, so the names they refer to live forever */
+var zonenames	: std.htab(byte[:], byte[:])#
+const __init__ = {
+	zonenames = std.mkht()
+}
+
+const internzone = {tz
+	match std.htget(zonenames, tz)
+	| `std.Some name:	-> name
+	| `std.None:
+		tz = std.sldup(tz)
+		std.htput(zonenames, tz, tz)
+		-> tz
+	;;
+}
+
 const localoff = {tm
 	-> tzoff("local", tm)
 }
diff --git a/lib/date/parse.myr b/lib/date/parse.myr
index a1df3f9..048ad33 100644
--- a/lib/date/parse.myr
+++ b/lib/date/parse.myr
@@ -206,11 +206,7 @@ const tzstring = {d, s, err
 		;;
 		n += std.charlen(c)
 	;;
-	if n < d._tzbuf.len
-		std.slcp(d._tzbuf[:n], s[:n])
-	else
-		err# = `std.Some `Badzone s[:n]
-	;;
+	d.tzname = internzone(s[:n])
 	-> (s[n:], s[:n])
 }
 
diff --git a/lib/date/types.myr b/lib/date/types.myr
index 0849052..14f8f22 100644
--- a/lib/date/types.myr
+++ b/lib/date/types.myr
@@ -13,7 +13,6 @@ pkg date =
 		s	: int		/* second: [0..59] */
 		us	: int		/* microsecond: [0..999,999] */
 		tzname	: byte[:]	/* current time zone name */
-		_tzbuf	: byte[32]	/* current time zone name storage */
 	;;
 
 	type duration = std.time
-- 
2.43.0


From eec95dec0776aa5252039c1e4d98bb477353b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 081/218] fix: find the zone offset in effect at an instant

---
 lib/date/zoneinfo+posixy.myr | 48 ++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/lib/date/zoneinfo+posixy.myr b/lib/date/zoneinfo+posixy.myr
index e2b8f6c..f9c1fa2 100644
--- a/lib/date/zoneinfo+posixy.myr
+++ b/lib/date/zoneinfo+posixy.myr
@@ -11,11 +11,11 @@ pkg _zoneinfo =
 ;;
 
 type zifile = struct
-	time	: int32[:]
+	time	: int64[:]
 	timetype: byte[:]
 	ttinfo 	: ttinfo[:]
 	abbrev	: byte[:]
-	leap	: int32[2][:]
+	leap	: int64[2][:]
 	isstd	: byte[:]
 	isgmt	: byte[:]
 ;;
@@ -73,20 +73,28 @@ const findtzoff = {tz, tm -> std.option(date.duration)
 	;;
 
 	/* find applicable gmt offset */
-	cur = (tm / 1_000_000 : int32)
-	if zone.time.len == 0
+	cur = (tm / 1_000_000 : int64)
+	if tm % 1_000_000 < 0
+		cur--
+	;;
+	if zone.ttinfo.len == 0
 		-> `std.None
 	;;
-	for i = 0; i < zone.time.len && cur < zone.time[i]; i++
+	for i = 0; i < zone.time.len && cur >= zone.time[i]; i++
 		/* nothing */
 	;;
-	ds = zone.ttinfo[zone.timetype[i]].gmtoff
+	if i == 0
+		/* the first type applies before the first transition */
+		ds = zone.ttinfo[0].gmtoff
+	else
+		ds = zone.ttinfo[zone.timetype[i - 1]].gmtoff
+	;;
 	->  `std.Some ((ds : date.duration) * 1_000_000)
 }
 
 const load = {file
 	var nisgmt, nisstd, nleap, ntime, ntype, nchar
-	var i, f, p, data
+	var i, f, p, data, wide
 
 	/* check magic */
 	match std.slurp(file)
@@ -101,6 +109,8 @@ const load = {file
 
 	/* skip to data */
 	p = data[20:]
+	wide = data[4] >= ('2' : byte)
+:header
 	(nisgmt, p) = fetchbe32(p)
 	(nisstd, p) = fetchbe32(p)
 	(nleap, p) = fetchbe32(p)
@@ -108,11 +118,16 @@ const load = {file
 	(ntype, p) = fetchbe32(p)
 	(nchar, p) = fetchbe32(p)
 
+	/* the second block has 64 bit times */
+	if wide && data.len - p.len == 44
+		p = p[5*ntime + 6*ntype + nchar + 8*nleap + nisstd + nisgmt + 20:]
+		goto header
+	;;
 
 	f = std.alloc()
 	f.time = std.slalloc((ntime : std.size))
 	for i = 0; i < ntime; i++
-		(f.time[i], p) = fetchbe32(p)
+		(f.time[i], p) = fetchtime(p, wide)
 	;;
 
 	f.timetype = std.slalloc((ntime : std.size))
@@ -132,8 +147,8 @@ const load = {file
 
 	f.leap = std.slalloc((nleap : std.size))
 	for i = 0; i < nleap; i++
-		(f.leap[i][0], p) = fetchbe32(p)
-		(f.leap[i][1], p) = fetchbe32(p)
+		(f.leap[i][0], p) = fetchtime(p, wide)
+		(f.leap[i][1], p) = fetchtime(p, false)
 	;;
 
 	f.isstd = std.slalloc((nisstd : std.size))
@@ -169,6 +184,19 @@ const fetchbe32 = {sl
 	-> (v, sl[4:])
 }
 
+const fetchtime = {sl, wide
+	var v : int64, u : int32
+
+	if wide
+		std.assert(sl.len >= 8, "Slice too small to fetch int64 from")
+		v = std.getbe64(sl[:8])
+		-> (v, sl[8:])
+	else
+		(u, sl) = fetchbe32(sl)
+		-> ((u : int64), sl)
+	;;
+}
+
 const fetchbe8 = {sl
 	var v
 
-- 
2.43.0


From 7a7ffd8bd16b1426372644d46ac8fdc2c80568c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 082/218] fix: format all date fields exactly

---
 lib/date/fmt.myr   | 37 +++++++++++++++++++++++++++++--------
 lib/date/types.myr |  2 +-
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/lib/date/fmt.myr b/lib/date/fmt.myr
index 064ff60..9faedab 100644
--- a/lib/date/fmt.myr
+++ b/lib/date/fmt.myr
@@ -2,6 +2,7 @@ use std
 
 use "types"
 use "names"
+use "date"
 
 pkg date = 
 	const sbfmt	: (sb : std.strbuf#, args : std.valist#, opt : (byte[:], byte[:])[:] -> void)
@@ -44,9 +45,9 @@ const datefmt = {sb, fmt, d
 			| 'b':	std.sbfmt(sb, "{}", _names.abbrevmon[d.mon])
 			| 'B':	std.sbfmt(sb, "{}", _names.fullmon[d.mon])
 			| 'c':	datefmt(sb, "%Y-%m-%d %H:%M:%S %z", d)
-			| 'C':	std.sbfmt(sb, "{p=0,w=2}", d.year % 100)
+			| 'C':	std.sbfmt(sb, "{p=0,w=2}", d.year / 100)
 			| 'd':	std.sbfmt(sb, "{p=0,w=2}", d.day)
-			| 'D':	datefmt(sb, "%m/%d/%y (wtf america)", d)
+			| 'D':	datefmt(sb, "%m/%d/%y", d)
 			| 'e':	std.sbfmt(sb, "{w=2}", d.day)
 			| 'F':	datefmt(sb, "%Y-%m-%d", d)
 			/*
@@ -55,10 +56,10 @@ const datefmt = {sb, fmt, d
 			*/
 			| 'h':	std.sbfmt(sb, "{}", _names.abbrevmon[d.mon])
 			| 'H':	std.sbfmt(sb, "{p=0,w=2}", d.h)
-			| 'I':	std.sbfmt(sb, "{p=0,w=2}", d.h % 12)
-			| 'j':	std.sbfmt(sb, "year day... unimplemented.")
+			| 'I':	std.sbfmt(sb, "{p=0,w=2}", hour12(d))
+			| 'j':	std.sbfmt(sb, "{p=0,w=3}", yearday(d))
 			| 'k':	std.sbfmt(sb, "{p=0,w=2}", d.h)
-			| 'l':	std.sbfmt(sb, "{}", d.h % 12)
+			| 'l':	std.sbfmt(sb, "{}", hour12(d))
 			| 'm':	std.sbfmt(sb, "{p=0,w=2}", d.mon)
 			| 'M':	std.sbfmt(sb, "{p=0,w=2}", d.m)
 			| 'n':	std.sbfmt(sb, "\n")
@@ -72,10 +73,10 @@ const datefmt = {sb, fmt, d
 			| 'T':	datefmt(sb, "%H:%M:%S", d)
 			| 't':	std.sbfmt(sb, "\t")
 			| 'u':	std.sbfmt(sb, "{}", d.wday)
-			| 'U':	std.sbfmt(sb, "week number... unimplemented.")
+			| 'U':	std.sbfmt(sb, "{p=0,w=2}", (yearday(d) + 6 - d.wday) / 7)
 			| 'x':	datefmt(sb, Datefmt, d)
 			| 'X':	datefmt(sb, Timefmt, d)
-			| 'y':	std.sbfmt(sb, "{}", d.year % 100)
+			| 'y':	std.sbfmt(sb, "{p=0,w=2}", d.year % 100)
 			| 'Y':	std.sbfmt(sb, "{}", d.year)
 			| 'z':	timezone(sb, d.tzoff)
 			| 'Z':	std.sbfmt(sb, "{}", d.tzname)
@@ -88,6 +89,26 @@ const datefmt = {sb, fmt, d
 	;;
 }
 
+const hour12 = {d
+	if d.h % 12 == 0
+		-> 12
+	else
+		-> d.h % 12
+	;;
+}
+
+/* the day of the year, starting at 1 */
+const yearday = {d
+	const before = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
+	var n
+
+	n = before[d.mon - 1] + d.day
+	if d.mon > 2 && isleap(d)
+		n++
+	;;
+	-> n
+}
+
 const timezone = {sb, off
 	var h, m
 	var sep
@@ -99,6 +120,6 @@ const timezone = {sb, off
 	;;
 	off /= 1_000_000
 	h = off / 3600
-	m = off % 3600
+	m = off % 3600 / 60
 	-> std.sbfmt(sb, "{}{p=0,w=2}{p=0,w=2}", sep, h, m)
 }
diff --git a/lib/date/types.myr b/lib/date/types.myr
index 14f8f22..e00fe04 100644
--- a/lib/date/types.myr
+++ b/lib/date/types.myr
@@ -31,5 +31,5 @@ pkg date =
 
 ;;
 const Datetimefmt	= "%Y-%m-%d %H:%M:%S %z"
-const Timefmt	= "%h:%m:{} %z"
+const Timefmt	= "%H:%M:%S %z"
 const Datefmt	= "%Y-%m-%d %z"
-- 
2.43.0


From 006bc57ed61a73c152bc71cd41a882d14cd87d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 083/218] fix: parse the date fields that are formatted

---
 lib/date/parse.myr | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/date/parse.myr b/lib/date/parse.myr
index 048ad33..90e5d58 100644
--- a/lib/date/parse.myr
+++ b/lib/date/parse.myr
@@ -80,19 +80,19 @@ const filldate = {d, f, s, seen, err
 			std.bsput(seen, fc)
 			match fc
 			/* named things */
-			| 'a':	s = indexof(&d.day, s, _names.abbrevday[:], err)
-			| 'A':	s = indexof(&d.day, s, _names.fullday[:], err)
+			| 'a':	s = indexof(&d.wday, s, _names.abbrevday[:], err)
+			| 'A':	s = indexof(&d.wday, s, _names.fullday[:], err)
 			| 'b':	s = indexof(&d.mon, s, _names.abbrevmon[:], err)
 			| 'B':	s = indexof(&d.mon, s, _names.fullmon[:], err)
-			| 'c':	s = filldate(d, "%Y-%m-%d", s, seen, err)
+			| 'c':	s = filldate(d, Datetimefmt, s, seen, err)
 			| 'C':	
 				s = intval(&d.year, s, 2, 2, err)
 				d.year += 1900
 			| 'd':	s = intval(&d.day, s, 2, 2, err)
 			| 'D':	s = filldate(d, "%m/%d/%y", s, seen, err)
 			| 'e':	s = intval(&d.day, s, 1, 2, err)
-			| 'F':	s = filldate(d, "%y-%m-%d", s, seen, err)
-			| 'h':	s = indexof(&d.day, s, _names.abbrevmon[:], err)
+			| 'F':	s = filldate(d, "%Y-%m-%d", s, seen, err)
+			| 'h':	s = indexof(&d.mon, s, _names.abbrevmon[:], err)
 			| 'H':	s = intval(&d.h, s, 1, 2, err)
 			| 'I':	s = intval(&d.h, s, 1, 2, err)
 			| 'k':	s = intval(&d.h, s, 1, 2, err)
@@ -102,10 +102,11 @@ const filldate = {d, f, s, seen, err
 			| 'n':	s = matchstr(s, "\n", err)
 			| 'p':	s = matchampm(d, s, &am, err)
 			| 'P':	s = matchampm(d, s, &am, err)
-			| 'r':	s = filldate(d, "%H:%M:%S %P", s, seen, err) 
-			| 'R':	s = filldate(d, "%H:%M %P", s, seen, err)
+			| 'r':	s = filldate(d, "%I:%M:%S %P", s, seen, err) 
+			| 'R':	s = filldate(d, "%H:%M", s, seen, err)
 			| 's':	s = intval(&d.actual, s, 1, 64, err)
 			| 'S':	s = intval(&d.s, s, 1, 2, err)
+			| 'T':	s = filldate(d, "%H:%M:%S", s, seen, err)
 			| 't':	s = eatspace(s)
 			| 'u':	s = intval(&d.wday, s, 1, 1, err)
 			| 'x':	s = filldate(d, Datefmt, s, seen, err)
-- 
2.43.0


From d32a61520fa9df365ba90ef5d1f17137b54582e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 084/218] fix: compute parsed instants from all their fields

---
 lib/date/date.myr  |  1 +
 lib/date/parse.myr | 29 +++++++++++++++++++----------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/lib/date/date.myr b/lib/date/date.myr
index feff604..beec9ec 100644
--- a/lib/date/date.myr
+++ b/lib/date/date.myr
@@ -24,6 +24,7 @@ pkg date =
 
 	const duration	: (a : instant, b : instant	-> duration)
 
+	pkglocal const mkinstantoff	: (tm : std.time, tz : byte[:], tzoff : duration -> instant)
 	pkglocal const internzone	: (tz : byte[:] -> byte[:])
 	pkglocal const recalc	: (inst : instant# -> std.time)
 	pkglocal const localtzoff	: (tz : byte[:], tm : std.time -> std.option(duration))
diff --git a/lib/date/parse.myr b/lib/date/parse.myr
index 90e5d58..827cc9b 100644
--- a/lib/date/parse.myr
+++ b/lib/date/parse.myr
@@ -45,13 +45,16 @@ const strparse = {f, s, tz, replace
 	var d, err
 	var seen
 
-	d = [.year = 0]
+	d = [.year = 1970, .mon = 1, .day = 1]
 	err = `std.None
 	seen = std.mkbs()
 	s = filldate(&d, f, s, seen, &err)
+	/* epoch seconds don't depend on the zone */
+	if !std.bshas(seen, 's')
+		d.actual -= (d.tzoff : std.time)
+	;;
 	std.bsfree(seen)
 
-	d.actual -= (d.tzoff : std.time)
 	match err
 	| `std.Some e:	-> `std.Err e
 	| `std.None:	/* no error, we're ok */
@@ -59,6 +62,8 @@ const strparse = {f, s, tz, replace
 
 	if replace
 		d = mkinstant(d.actual, tz)
+	else
+		d = mkinstantoff(d.actual, d.tzname, d.tzoff)
 	;;
 
 	-> `std.Ok d
@@ -104,7 +109,9 @@ const filldate = {d, f, s, seen, err
 			| 'P':	s = matchampm(d, s, &am, err)
 			| 'r':	s = filldate(d, "%I:%M:%S %P", s, seen, err) 
 			| 'R':	s = filldate(d, "%H:%M", s, seen, err)
-			| 's':	s = intval(&d.actual, s, 1, 64, err)
+			| 's':
+				s = intval(&d.actual, s, 1, 64, err)
+				d.actual *= 1_000_000
 			| 'S':	s = intval(&d.s, s, 1, 2, err)
 			| 'T':	s = filldate(d, "%H:%M:%S", s, seen, err)
 			| 't':	s = eatspace(s)
@@ -134,13 +141,6 @@ const filldate = {d, f, s, seen, err
 		| `std.None:
 		;;
 	;;
-	d.actual = recalc(d)
-	if z.len > 0
-		match _zoneinfo.findtzoff(z, d.actual)
-		| `std.Some o:	d.tzoff = o
-		| `std.None:	err# = `std.Some `Badzone z
-		;;
-	;;
 
 	match am
 	| `std.None:
@@ -151,6 +151,15 @@ const filldate = {d, f, s, seen, err
 		d.h += 12
 
 	;;
+	if !std.bshas(seen, 's')
+		d.actual = recalc(d)
+	;;
+	if z.len > 0
+		match localtzoff(z, d.actual)
+		| `std.Some o:	d.tzoff = o
+		| `std.None:	err# = `std.Some `Badzone z
+		;;
+	;;
 	-> s
 }
 
-- 
2.43.0


From ff8f344588a0f71596c3772a978f531891b61595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 085/218] fix: subtract the minutes of negative zone offsets

---
 lib/date/parse.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/date/parse.myr b/lib/date/parse.myr
index 827cc9b..441277a 100644
--- a/lib/date/parse.myr
+++ b/lib/date/parse.myr
@@ -201,7 +201,7 @@ const tzoffset = {dst, s, err
 		-> s
 	;;
 	s = intval(&tzoff, s[1:], 2, 4, err) 
-	dst# = sgn * (tzoff / 100) * 3600 * 1_000_000 + (tzoff % 100) * 60 * 1_000_000
+	dst# = sgn * ((tzoff / 100) * 3600 + (tzoff % 100) * 60) * 1_000_000
 	-> s
 }
 
-- 
2.43.0


From e06623ec027f536445891db75bc94942d76f5da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 086/218] fix: parse all zone names

---
 lib/date/parse.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/date/parse.myr b/lib/date/parse.myr
index 441277a..a53409f 100644
--- a/lib/date/parse.myr
+++ b/lib/date/parse.myr
@@ -211,7 +211,7 @@ const tzstring = {d, s, err
 	n = 0
 	while true
 		c = std.decode(s[n:])
-		if c != '/' && !std.isalnum(c)
+		if c != '/' && c != '_' && c != '-' && c != '+' && !std.isalnum(c)
 			break
 		;;
 		n += std.charlen(c)
-- 
2.43.0


From 5a491699cf7bcc8cc19c66fa84fa4be248562cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 087/218] fix: match literal escapes in date formats anywhere

---
 lib/date/parse.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/date/parse.myr b/lib/date/parse.myr
index a53409f..3495c28 100644
--- a/lib/date/parse.myr
+++ b/lib/date/parse.myr
@@ -78,7 +78,7 @@ const filldate = {d, f, s, seen, err
 		(fc, f) = std.charstep(f)
 		if fc == '%'
 			(fc, f) = std.charstep(f)
-			if std.bshas(seen, fc)
+			if std.bshas(seen, fc) && fc != '%' && fc != 'n' && fc != 't'
 				err# = `std.Some `Doublefmt fc
 				-> s
 			;;
@@ -222,7 +222,7 @@ const tzstring = {d, s, err
 
 
 const matchstr = {s, str, err
-	if s.len <= str.len || !std.eq(s[:str.len], str)
+	if s.len < str.len || !std.eq(s[:str.len], str)
 		err# = `std.Some `Badchar
 		-> s
 	;;
-- 
2.43.0


From 0e0c8917ad85610bd8affcd8356323d168010ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 088/218] fix: report unknown date format characters

---
 lib/date/parse.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/date/parse.myr b/lib/date/parse.myr
index 3495c28..b24d633 100644
--- a/lib/date/parse.myr
+++ b/lib/date/parse.myr
@@ -125,7 +125,7 @@ const filldate = {d, f, s, seen, err
 			| 'z':	s = tzoffset(&d.tzoff, s, err)
 			| 'Z':	(s, z) = tzstring(d, s, err)
 			| '%':	s = matchstr(s, "%", err)
-			| _:	std.fatal("unknown format character %c\n", fc)
+			| _:	err# = `std.Some `Badfmt fc
 			;;
 		else
 			(sc, s) = std.charstep(s)
-- 
2.43.0


From ce83a7b38e4be7ddd6190e23f67cbf4d584b92eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 089/218] fix: reject dates that do not match the format

---
 lib/date/parse.myr | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lib/date/parse.myr b/lib/date/parse.myr
index b24d633..4427b26 100644
--- a/lib/date/parse.myr
+++ b/lib/date/parse.myr
@@ -30,6 +30,21 @@ const parsefmt	= {f, s;	-> strparse(f, s, "", false)}
 const parsefmtl = {f, s;	-> strparse(f, s, "local", true)}
 const parsefmtz = {f, s, tz;	-> strparse(f, s, tz, true)}
 
+/* are all the fields valid? */
+const inrange = {d
+	const mdays = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
+	var n
+
+	if d.mon < 1 || d.mon > 12
+		-> false
+	;;
+	n = mdays[d.mon - 1]
+	if d.mon == 2 && isleap(d#)
+		n++
+	;;
+	-> d.day >= 1 && d.day <= n && d.h <= 23 && d.m <= 59 && d.s <= 60
+}
+
 type parsedtz = union
 	`None
 	`Off duration
@@ -59,6 +74,12 @@ const strparse = {f, s, tz, replace
 	| `std.Some e:	-> `std.Err e
 	| `std.None:	/* no error, we're ok */
 	;;
+	if s.len > 0
+		-> `std.Err `Badchar
+	;;
+	if !inrange(&d)
+		-> `std.Err `Badint
+	;;
 
 	if replace
 		d = mkinstant(d.actual, tz)
-- 
2.43.0


From 992f66b3fa4fd525345bc53a20e8b14ab7888250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 090/218] fix: reject date formats ending in %

---
 lib/date/parse.myr | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/date/parse.myr b/lib/date/parse.myr
index 4427b26..975f529 100644
--- a/lib/date/parse.myr
+++ b/lib/date/parse.myr
@@ -103,6 +103,10 @@ const filldate = {d, f, s, seen, err
 				err# = `std.Some `Doublefmt fc
 				-> s
 			;;
+			if fc == std.Badchar
+				err# = `std.Some `Badfmt fc
+				-> s
+			;;
 			std.bsput(seen, fc)
 			match fc
 			/* named things */
-- 
2.43.0


From 2105cd243b46c34d739a9fce14543e78603f6b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 091/218] fix: avoid overflow in the conversion of late dates

---
 lib/date/date.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/date/date.myr b/lib/date/date.myr
index beec9ec..bd0cab7 100644
--- a/lib/date/date.myr
+++ b/lib/date/date.myr
@@ -127,7 +127,7 @@ const mkinstantoff = {tm, tz, tzoff
 
 	Lots of magic. Yer a wizard, 'arry.
 	*/
-	j = (tm + 2440588 * DayUsec) / DayUsec 
+	j = e + 2440588
 	j -= 1721119
 
 	y = (4 * j - 1) / Days400y
-- 
2.43.0


From c4cb0b6fa78ee6c1d0e0c985762d754e0f906572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 092/218] fix: date: let %e parse the padded days that it
 formats

---
 lib/date/parse.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/date/parse.myr b/lib/date/parse.myr
index 975f529..1463510 100644
--- a/lib/date/parse.myr
+++ b/lib/date/parse.myr
@@ -120,7 +120,7 @@ const filldate = {d, f, s, seen, err
 				d.year += 1900
 			| 'd':	s = intval(&d.day, s, 2, 2, err)
 			| 'D':	s = filldate(d, "%m/%d/%y", s, seen, err)
-			| 'e':	s = intval(&d.day, s, 1, 2, err)
+			| 'e':	s = intval(&d.day, eatspace(s), 1, 2, err)
 			| 'F':	s = filldate(d, "%Y-%m-%d", s, seen, err)
 			| 'h':	s = indexof(&d.mon, s, _names.abbrevmon[:], err)
 			| 'H':	s = intval(&d.h, s, 1, 2, err)
-- 
2.43.0


From 68c9d09c6684cc8f2608d0f44e7fdda89da8be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 093/218] fix: date: let %s parse times before 1970

---
 lib/date/parse.myr | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/date/parse.myr b/lib/date/parse.myr
index 1463510..4872108 100644
--- a/lib/date/parse.myr
+++ b/lib/date/parse.myr
@@ -91,7 +91,7 @@ const strparse = {f, s, tz, replace
 }
 
 const filldate = {d, f, s, seen, err
-	var fc, sc, z, am
+	var fc, sc, z, am, neg
 
 	z = ""
 	am = `std.None
@@ -135,7 +135,14 @@ const filldate = {d, f, s, seen, err
 			| 'r':	s = filldate(d, "%I:%M:%S %P", s, seen, err) 
 			| 'R':	s = filldate(d, "%H:%M", s, seen, err)
 			| 's':
+				neg = s.len > 0 && s[0] == ('-' : byte)
+				if neg
+					s = s[1:]
+				;;
 				s = intval(&d.actual, s, 1, 64, err)
+				if neg
+					d.actual = -d.actual
+				;;
 				d.actual *= 1_000_000
 			| 'S':	s = intval(&d.s, s, 1, 2, err)
 			| 'T':	s = filldate(d, "%H:%M:%S", s, seen, err)
-- 
2.43.0


From ffdc637696c69c6a0b1340f1642d5179056d1083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 094/218] fix: date: free the path once when a zone is not
 found

---
 lib/date/zoneinfo+posixy.myr | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/date/zoneinfo+posixy.myr b/lib/date/zoneinfo+posixy.myr
index f9c1fa2..6d3129a 100644
--- a/lib/date/zoneinfo+posixy.myr
+++ b/lib/date/zoneinfo+posixy.myr
@@ -63,7 +63,6 @@ const findtzoff = {tz, tm -> std.option(date.duration)
 				;;
 				std.slfree(path)
 			;;
-			std.slfree(path)
 			-> `std.None
 		;;
 	:found
-- 
2.43.0


From 097ba721a0a79057508dc05f3adcdb89638956e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 095/218] fix: crypto: compare operands with different top bits
 in lt

---
 lib/crypto/ct.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/ct.myr b/lib/crypto/ct.myr
index 80ad13e..2ac4764 100644
--- a/lib/crypto/ct.myr
+++ b/lib/crypto/ct.myr
@@ -44,7 +44,7 @@ generic ge = {a, b
 generic lt = {a, b
 	const nshift = 8*sizeof(@t) - 1
 	var z = (a - b) 
-	-> (z ^ ((b ^ a) & (b ^ a))) >> nshift;
+	-> (z ^ ((b ^ a) & (b ^ z))) >> nshift;
 }
 
 generic le = {a, b
-- 
2.43.0


From 9c766c178e69b147daeac96ffa99f266458ec94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 096/218] fix: crypto: buffers of different lengths are not
 equal

---
 lib/crypto/ct.myr | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/crypto/ct.myr b/lib/crypto/ct.myr
index 2ac4764..dde1555 100644
--- a/lib/crypto/ct.myr
+++ b/lib/crypto/ct.myr
@@ -79,7 +79,10 @@ const bufeq = {a, b
 	var r, n
 
 	r = 1
-	n = min(a.len, b.len)
+	if a.len != b.len
+		-> false
+	;;
+	n = a.len
 	for var i = 0; i < n; i++
 		r = mux(r, eq(a[i], b[i]), r)
 	;;
-- 
2.43.0


From f79aee5be26e9809275bf0685690d14dee5dc947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 097/218] fix: crypto: write the last partial block in chacha20

---
 lib/crypto/chacha20.myr | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/crypto/chacha20.myr b/lib/crypto/chacha20.myr
index 371e39b..b9e8507 100644
--- a/lib/crypto/chacha20.myr
+++ b/lib/crypto/chacha20.myr
@@ -51,6 +51,7 @@ const chacha20encrypt = {x, m, c
 	var j0, j1, j2, j3, j4, j5, j6, j7, j8, j9, j10, j11, j12, j13, j14, j15 : uint32;
 	var ctarget = [][:]
 	var tmp : byte[64];
+	var n
 
 	std.assert(m.len == c.len, "mismatch between message and ciphertext lengths\n")
 	j0 = x.input[0]
@@ -71,8 +72,14 @@ const chacha20encrypt = {x, m, c
 	j15 = x.input[15]
 
 	while true
-		if m.len < 64
-			std.slcp(tmp[:m.len], m)
+		n = m.len
+		if n == 0
+			x.input[12] = j12;
+			x.input[13] = j13;
+			-> void
+		;;
+		if n < 64
+			std.slcp(tmp[:n], m)
 			m = tmp[:]
 			ctarget = c
 			c = tmp[:]
@@ -223,9 +230,9 @@ const chacha20encrypt = {x, m, c
 		std.putle32(c[56:60], x14);
 		std.putle32(c[60:64], x15);
 
-		if m.len <= 64
-			if m.len < 64
-				std.slcp(ctarget[:m.len], c)
+		if n <= 64
+			if n < 64
+				std.slcp(ctarget, c[:n])
 			;;
 			x.input[12] = j12;
 			x.input[13] = j13;
-- 
2.43.0


From 28bed3350479bc66cbfe8a4b90e5f1ed97f7e5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 098/218] fix: crypto: give the reduction constant of aesgcm
 its type

---
 lib/crypto/aesgcm.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/aesgcm.myr b/lib/crypto/aesgcm.myr
index 1e6cb94..873d966 100644
--- a/lib/crypto/aesgcm.myr
+++ b/lib/crypto/aesgcm.myr
@@ -189,7 +189,7 @@ const gfmul = {X, Y, Z
 		X[0] = X[0]>>1 | X[1]<<31
 		X[1] = X[1]>>1 | X[2]<<31
 		X[2] = X[2]>>1 | X[3]<<31
-		X[3] = X[3]>>1 ^ (0xE1000000 & m : uint32)
+		X[3] = X[3]>>1 ^ (0xE1000000 & (m : uint32))
 	;;
 }
 
-- 
2.43.0


From aac53b432e498cb1ddff71f597e2bfbade0150f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 099/218] fix: crypto: compare the digits to zero in ctiszero

---
 lib/crypto/ctbig.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/ctbig.myr b/lib/crypto/ctbig.myr
index 89d0caa..edf3f36 100644
--- a/lib/crypto/ctbig.myr
+++ b/lib/crypto/ctbig.myr
@@ -496,7 +496,7 @@ const ctiszero = {a
 
 	z = 1
 	for var i = 0; i < a.dig.len; i++
-		zz = mux(a.dig[i], 0, 1)
+		zz = eq(a.dig[i], 0)
 		z = mux(zz, z, 0)
 	;;
 	-> (z : bool)
-- 
2.43.0


From 963272ea6bd88e14fba19b3421f78eebd937abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 100/218] fix: crypto: compare the top digits in growmod

---
 lib/crypto/ctbig.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/ctbig.myr b/lib/crypto/ctbig.myr
index edf3f36..5d6b6fb 100644
--- a/lib/crypto/ctbig.myr
+++ b/lib/crypto/ctbig.myr
@@ -354,7 +354,7 @@ const growmod = {r, a, k, m
 	std.slcp(r.dig[1:], a.dig[:a.dig.len-1])
 	r.dig[0] = k
 	g = ((a0 + a1) / b0 : uint32)
-	e = eq(a0, b0)
+	e = eq(a0 >> 32, b0)
 	q = mux((e : uint32), 0xffffffff, mux(eq(g, 0), 0, g - 1));
 
 	cc = 0;
-- 
2.43.0


From a48d71eb63f5c265114839b1d4d6a62aea1044d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 101/218] fix: crypto: convert sizes that are no multiple of
 four bytes

---
 lib/crypto/ctbig.myr | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/crypto/ctbig.myr b/lib/crypto/ctbig.myr
index 5d6b6fb..1e4deb2 100644
--- a/lib/crypto/ctbig.myr
+++ b/lib/crypto/ctbig.myr
@@ -175,7 +175,7 @@ const ctbytesle = {v
 	o = 0
 	n = (v.nbit + 7) / 8
 	ret = std.slalloc(n)
-	for i = 0; i * 4  < n; i++
+	for i = 0; i * 4 + 4 <= n; i++
 		d = v.dig[i]
 		ret[o++] = (d >>  0 : byte)
 		ret[o++] = (d >>  8 : byte)
@@ -185,7 +185,7 @@ const ctbytesle = {v
 
 	if i * 4 != n
 		d = v.dig[i]
-		for ; i < n; i++
+		while o < n
 			ret[o++] = (d : byte)
 			d >>= 8
 		;;
@@ -202,7 +202,7 @@ const ctbytesbe = {v : ctbig#
 	ret = std.slalloc(n)
 	if n & 0x3 != 0
 		d = v.dig[i--]
-		for var j = n & 0x3 + 1; j > 0; j--
+		for var j = n & 0x3; j > 0; j--
 			ret[o++] = (d >> 8*(j - 1 : uint32): byte)
 		;;
 	;;
-- 
2.43.0


From 22d6fd72430900daa5f540979d36782f176060f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 102/218] fix: crypto: count the bits of a modulus with leading
 zeros

---
 lib/crypto/rsa.myr | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/crypto/rsa.myr b/lib/crypto/rsa.myr
index c05ced1..0efc4cb 100644
--- a/lib/crypto/rsa.myr
+++ b/lib/crypto/rsa.myr
@@ -92,9 +92,11 @@ const bitcount = {buf
 	var i, top, nbit
 
 	nbit = 8*buf.len
-	for i = 0; buf[i] == 0 && i < buf.len; i++
-		nbit -= 0
-		i++
+	for i = 0; i < buf.len && buf[i] == 0; i++
+		nbit -= 8
+	;;
+	if i == buf.len
+		-> 0
 	;;
 	top = buf[i]
 	for b : bits[:]
-- 
2.43.0


From e098e7835b9e1e154170852017f5eebbabae5c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 103/218] fix: crypto: allow the longest message that fits the
 padding

---
 lib/crypto/rsa.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/rsa.myr b/lib/crypto/rsa.myr
index 0efc4cb..c63888a 100644
--- a/lib/crypto/rsa.myr
+++ b/lib/crypto/rsa.myr
@@ -58,7 +58,7 @@ const decode = {msg, len
 const pad = {msg, nbytes, padbuf
 	var buf, pslen
 
-	std.assert(msg.len < nbytes - 11, "overlong message")
+	std.assert(msg.len <= nbytes - 11, "overlong message")
 	buf = std.slalloc(nbytes)
 
 	buf[0] = 0
-- 
2.43.0


From 93fd3fc4846830019e426700cd502a40e87e3cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 104/218] fix: crypto: drop what exceeds the width in mkctbigle
 and mkctbigbe

---
 lib/crypto/ctbig.myr | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/crypto/ctbig.myr b/lib/crypto/ctbig.myr
index 1e4deb2..75c7f0b 100644
--- a/lib/crypto/ctbig.myr
+++ b/lib/crypto/ctbig.myr
@@ -129,7 +129,7 @@ const mkctbigle = {v, nbit
 	 */
 	o = 0
 	a = std.slzalloc(ndig(nbit))
-	for i = 0; i + 4 <= v.len; i += 4
+	for i = 0; i + 4 <= v.len && o < a.len; i += 4
 		a[o++] = \
 			((v[i + 0] : uint32) <<  0) | \
 			((v[i + 1] : uint32) <<  8) | \
@@ -137,7 +137,7 @@ const mkctbigle = {v, nbit
 			((v[i + 3] : uint32) << 24)
 	;;
 
-	if i != v.len
+	if i != v.len && o < a.len
 		last = 0
 		for i; i < v.len; i++
 			off = i & 0x3
@@ -157,11 +157,11 @@ const mkctbigbe = {v, nbit
 	 */
 	o = 0
 	a = std.slzalloc(ndig(nbit))
-	for i = v.len ; i >= 4; i -= 4
+	for i = v.len ; i >= 4 && o < a.len; i -= 4
 		a[o++] = std.getbe32(v[i-4:i])
 	;;
 
-	if i != 0
+	if i != 0 && o < a.len
 		std.slfill(tail[:], 0)
 		std.slcp(tail[4-i:], v[:i])
 		a[o++] = std.getbe32(tail[:])
-- 
2.43.0


From 0e3617ec6427a75f7d67a0756c080bbcfc601742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 105/218] fix: crypto: nothing to clip in a number of zero bits

---
 lib/crypto/ctbig.myr | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/crypto/ctbig.myr b/lib/crypto/ctbig.myr
index 75c7f0b..114dc4c 100644
--- a/lib/crypto/ctbig.myr
+++ b/lib/crypto/ctbig.myr
@@ -554,6 +554,9 @@ const checksz = {a, b
 const clip = {v
 	var mask, edge : uint64
 
+	if v.dig.len == 0
+		-> v
+	;;
 	edge = (v.nbit : uint64) & (Bits - 1)
 	mask = mux(edge, (1 << edge) - 1, ~0)
 	v.dig[v.dig.len - 1] &= (mask : uint32)
-- 
2.43.0


From 86206cccdd79fbd227f6854e94815c94db3916bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 106/218] fix: crypto: shift the top digit in ctbytesbe

---
 lib/crypto/ctbig.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/ctbig.myr b/lib/crypto/ctbig.myr
index 114dc4c..2d3e03f 100644
--- a/lib/crypto/ctbig.myr
+++ b/lib/crypto/ctbig.myr
@@ -203,7 +203,7 @@ const ctbytesbe = {v : ctbig#
 	if n & 0x3 != 0
 		d = v.dig[i--]
 		for var j = n & 0x3; j > 0; j--
-			ret[o++] = (d >> 8*(j - 1 : uint32): byte)
+			ret[o++] = (d >> (8*(j - 1) : uint32) : byte)
 		;;
 	;;
 	for ; i >= 0 ; i--
-- 
2.43.0


From aba5be4e8206dbe51b23fe76dcfc49065b4a0fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 107/218] fix: crypto: leave the secret of the caller alone in
 curve25519

---
 lib/crypto/curve25519.myr | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/crypto/curve25519.myr b/lib/crypto/curve25519.myr
index 5034b9d..12f6a3d 100644
--- a/lib/crypto/curve25519.myr
+++ b/lib/crypto/curve25519.myr
@@ -765,6 +765,7 @@ const crecip = {out, z
 }
 
 const curve25519 = {pub : byte[:/*32*/], secret : byte[:/*32*/], basepoint : byte[:/*32*/]
+	var e : byte[32]
 	var bp : int64[10]
 	var x : int64[10]
 	var z : int64[11]	/* one extra for reduced coefficients */
@@ -774,12 +775,14 @@ const curve25519 = {pub : byte[:/*32*/], secret : byte[:/*32*/], basepoint : byt
 	std.assert(secret.len == 32 , "wrong secret size\n")
 	std.assert(basepoint.len == 32 , "wrong basepoint size\n")
 
-	secret[0] &= 248
-	secret[31] &= 127
-	secret[31] |= 64
+	/* the secret belongs to the caller */
+	std.slcp(e[:], secret)
+	e[0] &= 248
+	e[31] &= 127
+	e[31] |= 64
 
 	fexpand(bp[:], basepoint[:])
-	cmult(x[:], z[:], secret[:], bp[:])
+	cmult(x[:], z[:], e[:], bp[:])
 	crecip(zmone[:], z[:])
 	fmul(z[:], x[:], zmone[:])
 	fcontract(pub[:], z[:])
-- 
2.43.0


From 7d92312689a393a2208c054f7690354ffa4cfbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 108/218] fix: crypto: initialise the mutex of the random
 generator

---
 lib/crypto/rand.myr | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/crypto/rand.myr b/lib/crypto/rand.myr
index 2ccc5db..0160839 100644
--- a/lib/crypto/rand.myr
+++ b/lib/crypto/rand.myr
@@ -19,6 +19,10 @@ var ctx	: chacha20ctx	/* the generator */
 var pid	: std.pid	/* for rekeying on fork and exec */
 var mtx	: thread.mutex	/* there can be only one */
 
+const __init__ = {
+	mtx = thread.mkmtx()
+}
+
 generic rand = {lo, hi
 	var span, lim, val, max
 	
-- 
2.43.0


From 49d17b42147150141c78a6dec8898e4c335c5356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 109/218] fix: crypto: reject the values above the last whole
 span

---
 lib/crypto/rand.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/rand.myr b/lib/crypto/rand.myr
index 0160839..21eb2a3 100644
--- a/lib/crypto/rand.myr
+++ b/lib/crypto/rand.myr
@@ -35,7 +35,7 @@ generic rand = {lo, hi
 	
 	lim = (max/span)*span
 	val = (randnum() & max)
-	while val > lim
+	while val >= lim
 	        val = (randnum() & max)
 	;;
 	-> val % span + lo
-- 
2.43.0


From 37b6b42513474a5e93a440959b3e3e3a306d581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 110/218] fix: crypto: continue after a short read in
 getentropy

---
 lib/crypto/entropy.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/entropy.myr b/lib/crypto/entropy.myr
index b2e8ea9..6590340 100644
--- a/lib/crypto/entropy.myr
+++ b/lib/crypto/entropy.myr
@@ -18,7 +18,7 @@ const getentropy = {buf
 
 	nread = 0
 	while nread < buf.len
-		match std.read(randfd, buf)
+		match std.read(randfd, buf[nread:])
 		| `std.Err e:	std.die(std.fmt("unable to read from randfd: {}\n", e))
 		| `std.Ok 0:	std.die("could not get entropy from randfd: EOF\n")
 		| `std.Ok n:	nread += n
-- 
2.43.0


From f4dd108db86a7a00510f966cd3783b392d3ea0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 111/218] fix: crypto: clear the upper digits in mkctbign

---
 lib/crypto/ctbig.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/ctbig.myr b/lib/crypto/ctbig.myr
index 2d3e03f..4238e74 100644
--- a/lib/crypto/ctbig.myr
+++ b/lib/crypto/ctbig.myr
@@ -76,7 +76,7 @@ generic mkctbign = {v : @a, nbit : std.size :: integral,numeric @a
 
 	val = (v : uint64)
 	a.nbit = nbit
-	a.dig = std.slalloc(ndig(nbit))
+	a.dig = std.slzalloc(ndig(nbit))
 	if nbit > 0
 		a.dig[0] = (val : uint32)
 	;;
-- 
2.43.0


From acd7b62faf81cefc4444650f4532611496c16436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 112/218] fix: std: convert the 64 bit value in getle64 and
 getbe64

---
 lib/std/getint.myr | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/lib/std/getint.myr b/lib/std/getint.myr
index 146e310..bd5e661 100644
--- a/lib/std/getint.myr
+++ b/lib/std/getint.myr
@@ -24,25 +24,31 @@ generic gethost64 = {buf -> @a :: numeric,integral @a
 }
 
 generic getbe64 = {buf -> @a :: numeric,integral @a
-	->	((buf[0] : @a) << 56) | \
-		((buf[1] : @a) << 48) | \
-		((buf[2] : @a) << 40) | \
-		((buf[3] : @a) << 32) | \
-		((buf[4] : @a) << 24) | \
-		((buf[5] : @a) << 16) | \
-		((buf[6] : @a) << 8) | \
-		((buf[7] : @a) << 0)
+	var v : uint64
+
+	v =	((buf[0] : uint64) << 56) | \
+		((buf[1] : uint64) << 48) | \
+		((buf[2] : uint64) << 40) | \
+		((buf[3] : uint64) << 32) | \
+		((buf[4] : uint64) << 24) | \
+		((buf[5] : uint64) << 16) | \
+		((buf[6] : uint64) << 8) | \
+		((buf[7] : uint64) << 0)
+	-> (v : @a)
 }
 
-generic getle64 = {buf
-	->	((buf[0] : @a)  << 0) | \
-		((buf[1] : @a)  << 8) | \
-		((buf[2] : @a)  << 16) | \
-		((buf[3] : @a)  << 24) | \
-		((buf[4] : @a)  << 32) | \
-		((buf[5] : @a)  << 40) | \
-		((buf[6] : @a)  << 48) | \
-		((buf[7] : @a)  << 56)
+generic getle64 = {buf -> @a :: numeric,integral @a
+	var v : uint64
+
+	v =	((buf[0] : uint64)  << 0) | \
+		((buf[1] : uint64)  << 8) | \
+		((buf[2] : uint64)  << 16) | \
+		((buf[3] : uint64)  << 24) | \
+		((buf[4] : uint64)  << 32) | \
+		((buf[5] : uint64)  << 40) | \
+		((buf[6] : uint64)  << 48) | \
+		((buf[7] : uint64)  << 56)
+	-> (v : @a)
 }
 
 generic gethost32 = {buf -> @a :: numeric,integral @a
-- 
2.43.0


From fabceb8eb1b60e37aefe4b2becb021cc9702fd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 113/218] fix: flate: reject reserved length and distance
 symbols

---
 lib/flate/flate.myr | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/flate/flate.myr b/lib/flate/flate.myr
index 4b79000..e28132c 100644
--- a/lib/flate/flate.myr
+++ b/lib/flate/flate.myr
@@ -242,6 +242,9 @@ const decomp = {st
 			;;
 		elif symb > 256
 			symb -= 257
+			if symb >= basel.len
+				-> `std.Err (`Format "invalid length symbol")
+			;;
 			match bits(st, extral[symb])
 			| `std.Ok x: len = basel[symb] + x
 			| `std.Err e: -> `std.Err e
@@ -250,6 +253,9 @@ const decomp = {st
 			| `std.Ok s: symb = s
 			| `std.Err e: -> `std.Err e
 			;;
+			if symb >= based.len
+				-> `std.Err (`Format "invalid distance symbol")
+			;;
 			match bits(st, extrad[symb])
 			| `std.Ok x: dst = (based[symb] + x : std.size)
 			| `std.Err e: -> `std.Err e
-- 
2.43.0


From af8d49a49ed8d488c7800fb8fefbd5e2bc8bca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 114/218] fix: flate: reject over-subscribed codes

---
 lib/flate/flate.myr | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/lib/flate/flate.myr b/lib/flate/flate.myr
index e28132c..abc004b 100644
--- a/lib/flate/flate.myr
+++ b/lib/flate/flate.myr
@@ -176,7 +176,21 @@ const mkhufc = {length, hc
 			hc.symbol[index[length[symb]]++] = symb
 		;;
 	;;
-	/* TODO: validate the Huffman code */
+}
+
+/* no more codes of each length than there are bit patterns for them */
+const validhufc = {hc
+	var left
+
+	left = 1
+	for var l = 1; l <= MaxBits; l++
+		left <<= 1
+		left -= (hc.count[l] : std.size)
+		if left < 0
+			-> false
+		;;
+	;;
+	-> true
 }
 
 const readcode = {st, hc
@@ -314,6 +328,9 @@ const dynamic = {st
 		;;
 	;;
 	mkhufc(length[:19], &hufc)
+	if !validhufc(&hufc)
+		-> `std.Err (`Format "invalid set of code length codes")
+	;;
 	for var c = 0; c < nlen + ndst;
 		/* according to the RFC: "the code length repeat codes
 		   can cross from HLIT + 257 to the HDIST + 1 code
@@ -362,6 +379,12 @@ const dynamic = {st
 	;;
 	mkhufc(length[:nlen], &st.lenhc)
 	mkhufc(length[nlen:nlen + ndst], &st.dsthc)
+	if !validhufc(&st.lenhc)
+		-> `std.Err (`Format "invalid set of length codes")
+	;;
+	if !validhufc(&st.dsthc)
+		-> `std.Err (`Format "invalid set of distance codes")
+	;;
 	-> decomp(st)
 }
 
-- 
2.43.0


From 199d45dfcaebd80b956fce7101220c79e66a10c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 115/218] fix: type-substitute specializations reached through
 other specializations

---
 parse/infer.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 284b61d..b2022eb 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2805,7 +2805,7 @@ specialize(void)
 {
 	Node *d, *n, *name;
 	Type *ty, *it, *dt;
-	size_t i;
+	size_t i, nsub;
 	Trait *tr;
 
 	for (i = 0; i < nimpldecl; i++) {
@@ -2814,6 +2814,8 @@ specialize(void)
 		typesub(d, 0);
 	}
 
+	nsub = file.nstmts;
+
 	for (i = 0; i < nspecializations; i++) {
 		pushstab(specializationscope[i]);
 		n = specializations[i];
@@ -2829,10 +2831,6 @@ specialize(void)
 			d = specializedcl(genericdecls[i], n->expr.param, n->expr.type, &name);
 			n->expr.args[0] = name;
 			n->expr.did = d->decl.did;
-
-			/* we need to sub in default types in the specialization, so call
-			 * typesub on the specialized function */
-			typesub(d, 0);
 		} else if (n->type == Niterstmt) {
 			tr = traittab[Tciter];
 			assert(tr->nproto == 2);
@@ -2851,6 +2849,12 @@ specialize(void)
 			die("unknown node for specialization\n");
 		}
 enditer:
+		/* we need to sub in default types in the specializations, and to
+		 * find the specializations that they need in turn, so call typesub
+		 * on each specialized function, including the ones that were
+		 * reached through another specialized function */
+		for (; nsub < file.nstmts; nsub++)
+			typesub(file.stmts[nsub], 0);
 		popstab();
 	}
 }
-- 
2.43.0


From 7270c875cfc4f068b1ee042cd3ff65fb4cfff486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 116/218] fix: iter: stop after the one permutation of the
 empty sequence

---
 lib/iter/perm.myr | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/iter/perm.myr b/lib/iter/perm.myr
index 0ac8cb6..44ed4b9 100644
--- a/lib/iter/perm.myr
+++ b/lib/iter/perm.myr
@@ -24,9 +24,9 @@ generic byperm = {a, cmp
  */
 impl iterable permiter(@a) -> @a[:] =
 	__iternext__ = {itp, valp
-		var j : std.size = seq.len - 1
-		var i : std.size = seq.len - 1
 		var seq : @a[:] = itp.seq
+		var j : std.size
+		var i : std.size
 
 		valp# = itp.seq
 
@@ -35,6 +35,10 @@ impl iterable permiter(@a) -> @a[:] =
 			-> true
 		;;
 
+		if seq.len == 0
+			-> false
+		;;
+
 		/*
 		  To generate the next permutation, we need
 		  to increase the sequence by as little as
-- 
2.43.0


From e191652f354bf9202be1d58224ca58c99f87ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 117/218] fix: escfmt: escape the backslash as itself in
 regexes

---
 lib/escfmt/escre.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/escfmt/escre.myr b/lib/escfmt/escre.myr
index 418b6c4..1854e7e 100644
--- a/lib/escfmt/escre.myr
+++ b/lib/escfmt/escre.myr
@@ -30,7 +30,7 @@ const refmt = {sb, ap, args
 		| '^':	std.sbputs(sb, "\\^")
 		| '$':	std.sbputs(sb, "\\$")
 		| '.':	std.sbputs(sb, "\\.")
-		| '\\':	std.sbputs(sb, "\\.")
+		| '\\':	std.sbputs(sb, "\\\\")
 		| '(':	std.sbputs(sb, "\\(")
 		| ')':	std.sbputs(sb, "\\)")
 		| _:	std.sbputc(sb, c)
-- 
2.43.0


From 30d1c6157439c8ffc14b0840ee169da856f6da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 118/218] fix: escfmt: pass on undecodable bytes in regexes

---
 lib/escfmt/escre.myr | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/escfmt/escre.myr b/lib/escfmt/escre.myr
index 1854e7e..1c95112 100644
--- a/lib/escfmt/escre.myr
+++ b/lib/escfmt/escre.myr
@@ -19,8 +19,8 @@ const refmt = {sb, ap, args
 	var s : byte[:]
 
 	s = std.vanext(ap)
-	for c : std.bychar(s)
-		match c
+	for b : s
+		match (b : char)
 		| '|':	std.sbputs(sb, "\\|")
 		| '*':	std.sbputs(sb, "\\*")
 		| '+':	std.sbputs(sb, "\\+")
@@ -33,7 +33,7 @@ const refmt = {sb, ap, args
 		| '\\':	std.sbputs(sb, "\\\\")
 		| '(':	std.sbputs(sb, "\\(")
 		| ')':	std.sbputs(sb, "\\)")
-		| _:	std.sbputc(sb, c)
+		| _:	std.sbputb(sb, b)
 		;;
 	;;
 }
-- 
2.43.0


From d380b6acc1b534dfcb60af8a99f6258e7daaef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 119/218] fix: escfmt: pass on undecodable bytes in HTML

---
 lib/escfmt/eschtml.myr | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/escfmt/eschtml.myr b/lib/escfmt/eschtml.myr
index e32f4b3..0d38dc3 100644
--- a/lib/escfmt/eschtml.myr
+++ b/lib/escfmt/eschtml.myr
@@ -19,13 +19,13 @@ const htmlfmt = {sb, ap, args
 	var s : byte[:]
 
 	s = std.vanext(ap)
-	for c : std.bychar(s)
-		match c
+	for b : s
+		match (b : char)
 		| '&': std.sbputs(sb, "&amp;")
 		| '<': std.sbputs(sb, "&lt;")
 		| '>': std.sbputs(sb, "&gt;")
 		| '/': std.sbputs(sb, "&#x2f;")
-		| _:   std.sbputc(sb, c)
+		| _:   std.sbputb(sb, b)
 		;;
 	;;
 }
-- 
2.43.0


From d329393b9499f297e65e91124e0573a71b1fe72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 120/218] fix: escfmt: escape quotes in HTML

---
 lib/escfmt/eschtml.myr | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/escfmt/eschtml.myr b/lib/escfmt/eschtml.myr
index 0d38dc3..df122d3 100644
--- a/lib/escfmt/eschtml.myr
+++ b/lib/escfmt/eschtml.myr
@@ -24,6 +24,8 @@ const htmlfmt = {sb, ap, args
 		| '&': std.sbputs(sb, "&amp;")
 		| '<': std.sbputs(sb, "&lt;")
 		| '>': std.sbputs(sb, "&gt;")
+		| '"': std.sbputs(sb, "&quot;")
+		| '\'': std.sbputs(sb, "&#x27;")
 		| '/': std.sbputs(sb, "&#x2f;")
 		| _:   std.sbputb(sb, b)
 		;;
-- 
2.43.0


From 320ea16b3fa795d8cc6b57d9fbbd833b1ac5e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 121/218] fix: escfmt: escape everything that cannot appear in
 a URL

---
 lib/escfmt/escurl.myr | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/escfmt/escurl.myr b/lib/escfmt/escurl.myr
index 0e1323b..3b45fc2 100644
--- a/lib/escfmt/escurl.myr
+++ b/lib/escfmt/escurl.myr
@@ -41,8 +41,11 @@ const urlfmt = {sb, ap, args
 		| '=':	std.sbfmt(sb, "%{x}", b)
 		| '%':	std.sbfmt(sb, "%{x}", b)
 		| c:
-			if b >= 0x80
-				std.sbfmt(sb, "%{x}", b)
+			/* nor can anything else that is not unreserved */
+			if b <= 0x20 || b >= 0x7f || c == '"' || c == '<' || c == '>' || \
+				c == '\\' || c == '^' || c == '`' || c == '{' || \
+				c == '|' || c == '}'
+				std.sbfmt(sb, "%{x,p=0,w=2}", b)
 			else
 				std.sbfmt(sb, "{}", c)
 			;;
-- 
2.43.0


From e9ed82a907ce38e16c7ef81192e9b65bb3897f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 122/218] fix: endian: swap signed bytes

---
 lib/std/endian.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/endian.myr b/lib/std/endian.myr
index c896dd8..b862c23 100644
--- a/lib/std/endian.myr
+++ b/lib/std/endian.myr
@@ -12,7 +12,7 @@ generic hosttonet = {v : @a :: integral,numeric @a
 	ret = 0
 	for i = 0; i < sizeof(@a); i++
 		ret <<= 8
-		ret |= v & 0xff 
+		ret |= ((v : byte) : @a)
 		v >>= 8
 	;;
 	-> ret
@@ -25,7 +25,7 @@ generic nettohost = {v : @a :: integral,numeric @a
 	ret = 0
 	for i = 0; i < sizeof(@a); i++
 		ret <<= 8
-		ret |= v & 0xff 
+		ret |= ((v : byte) : @a)
 		v >>= 8
 	;;
 	-> ret
-- 
2.43.0


From d50673a2a06b3aa7a30ca31c330a525da7dc6ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 123/218] fix: exp: propagate NaN

---
 lib/math/exp-impl.myr | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/math/exp-impl.myr b/lib/math/exp-impl.myr
index 877abeb..21a154d 100644
--- a/lib/math/exp-impl.myr
+++ b/lib/math/exp-impl.myr
@@ -206,6 +206,10 @@ generic expgen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating,std.equata
 	var n, e, s
 	(n, e, s) = d.explode(x)
 
+	if std.isnan(x)
+		-> d.frombits(d.nan)
+	;;
+
 	/*
 	   Detect if exp(f) would round to outside representability.
 	   We don't do bias adjustment, so Tang's thresholds can
-- 
2.43.0


From a5134c6ae1b44190d909f1114fbee2a911f0aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 124/218] fix: exp: the threshold itself does not overflow

---
 lib/math/exp-impl.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/math/exp-impl.myr b/lib/math/exp-impl.myr
index 21a154d..d51f8e2 100644
--- a/lib/math/exp-impl.myr
+++ b/lib/math/exp-impl.myr
@@ -215,7 +215,7 @@ generic expgen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating,std.equata
 	   We don't do bias adjustment, so Tang's thresholds can
 	   be tightened.
 	 */
-	if !n && b >= d.thresh_1_max
+	if !n && b > d.thresh_1_max
 		-> d.frombits(d.inf)
 	elif n && b > d.thresh_1_min
 		-> (0.0 : @f)
@@ -309,7 +309,7 @@ generic expm1gen = {x : @f, d : fltdesc(@f, @u, @i) :: \
 		var two_to_small = d.assem(false, -100, 0)
 		var abs_x = d.assem(false, e, s)
 		-> (two_to_large * x + abs_x) * two_to_small
-	elif !n && b >= d.thresh_1_max /* exp(x) = oo <=> expm1(x) = oo, as it turns out */
+	elif !n && b > d.thresh_1_max /* exp(x) = oo <=> expm1(x) = oo, as it turns out */
 		-> d.frombits(d.inf)
 	elif n && b >= d.thresh_huge_neg
 		-> (-1.0 : @f)
-- 
2.43.0


From a5aeddb08274ffe0581458fc0d61679dd6f8d039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 125/218] fix: log1p: the value at -1 is -inf

---
 lib/math/log-impl.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/math/log-impl.myr b/lib/math/log-impl.myr
index f2ff68e..f240018 100644
--- a/lib/math/log-impl.myr
+++ b/lib/math/log-impl.myr
@@ -471,7 +471,7 @@ generic log1pgen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating @f, nume
 	elif (b & ~d.sgnmask == 0)
 		-> x
 	elif std.eq(x, (-1.0 : @f))
-		-> d.frombits(d.nan | d.sgnmask)
+		-> d.frombits(d.ninf)
 	elif x < (-1.0 : @f)
 		-> d.frombits(d.nan)
 	elif (b == d.inf)
-- 
2.43.0


From 681b9549d0aa0aae9486c3a9858c6aed22ce904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 126/218] fix: sin: keep the sign of zero

---
 lib/math/sin-impl.myr | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/math/sin-impl.myr b/lib/math/sin-impl.myr
index 5a321a4..8e55dd6 100644
--- a/lib/math/sin-impl.myr
+++ b/lib/math/sin-impl.myr
@@ -460,6 +460,9 @@ const w64 = {x : flt64, want_sin : bool, want_cos : bool
 
 	if e == 1024
 		-> (std.flt64nan(), 0.0, std.flt64nan(), 0.0)
+	elif x == 0.0
+		/* keep the sign of zero */
+		-> (x, 0.0, 1.0, 0.0)
 	;;
 
 	var N : int64
-- 
2.43.0


From 6c9e655d71567aec01d3a3b4ab5bd63f59b3a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 127/218] fix: priest_sum: sort the copy

---
 lib/math/sum-impl.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/math/sum-impl.myr b/lib/math/sum-impl.myr
index 81f9a23..9f24398 100644
--- a/lib/math/sum-impl.myr
+++ b/lib/math/sum-impl.myr
@@ -71,7 +71,7 @@ pkglocal const priest_sum32 = {l : flt32[:]
 
 pkglocal const priest_sum64 = {l : flt64[:]
 	var l2 = std.sldup(l)
-	std.sort(l, mag_cmp64)
+	std.sort(l2, mag_cmp64)
 	auto (l2 : doomed_flt64_arr)
 	var s, c
 	(s, c) = double_compensated_sum(l2)
-- 
2.43.0


From af4796be870d1a98c45139d8e1e4402c4e30a0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 128/218] fix: powr: handle infinite arguments

---
 lib/math/powr-impl.myr | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/math/powr-impl.myr b/lib/math/powr-impl.myr
index dadd23b..bd3ffc7 100644
--- a/lib/math/powr-impl.myr
+++ b/lib/math/powr-impl.myr
@@ -133,8 +133,8 @@ generic powrgen = {x : @f, y : @f, d : fltdesc(@f, @u, @i) :: numeric,floating,s
 			/* oo^0 is undefined */
 			-> d.frombits(d.nan)
 		elif yn
-			/* +/-oo^(< 0) is +/-0 */
-			-> d.assem(xn, 0, 0)
+			/* oo^(< 0) is 0 */
+			-> (0.0 : @f)
 		elif xn
 			/* (-oo)^(anything) is undefined */
 			-> d.frombits(d.nan)
@@ -157,11 +157,11 @@ generic powrgen = {x : @f, y : @f, d : fltdesc(@f, @u, @i) :: numeric,floating,s
 			-> (1.0 : @f)
 		;;
 	elif yb & ~d.sgnmask == d.inf
-		if xe < 0
-			/* (0 < x < 1)^oo = 0 */
+		if (xe < 0) != yn
+			/* (0 < x < 1)^oo = (x > 1)^-oo = 0 */
 			-> (0.0 : @f)
 		else
-			/* (x > 1)^oo = oo */
+			/* (x > 1)^oo = (0 < x < 1)^-oo = oo */
 			-> d.frombits(d.inf)
 		;;
 	;;
-- 
2.43.0


From b925a711e36c716e66231d3d9c663ed2674cc2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 129/218] fix: scale2: handle scales outside of the exponent
 range

---
 lib/math/scale2-impl.myr | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/math/scale2-impl.myr b/lib/math/scale2-impl.myr
index f75aac8..dc78ef5 100644
--- a/lib/math/scale2-impl.myr
+++ b/lib/math/scale2-impl.myr
@@ -32,13 +32,29 @@ generic scale2gen = {n : bool, e : @i, s : @u, emin : @i, emax : @i, p : @u, m :
 		-> (n, e, s)
 	elif m == 0
 		-> (n, e, s)
-	elif m < 0
+	elif e > emax
+		/* infinities and NaNs scale to themselves */
+		-> (n, e, s)
+	;;
+
+	/* No number is scaled by more than its whole range, so avoid overflow */
+	var range = 2 * (emax - emin + (p : @i))
+	if m > range
+		m = range
+	elif m < -range
+		m = -range
+	;;
+
+	if m < 0
 		var sprime = s
 		var eprime = e
 		if e < emin
-			sprime = s >> (-m)
-			if need_round_away(0, (s : uint64), (-m : int64))
-				sprime++
+			sprime = 0
+			if -m <= (p : @i)
+				sprime = s >> (-m)
+				if need_round_away(0, (s : uint64), (-m : int64))
+					sprime++
+				;;
 			;;
 			eprime = emin - 1
 		elif e + m < emin - p - 2
-- 
2.43.0


From 21f2c6031613f7dab2e0af6556fc754c388d1e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 130/218] fix: rootn: handle zeros, negative numbers and
 infinities

---
 lib/math/pown-impl.myr | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/math/pown-impl.myr b/lib/math/pown-impl.myr
index 6dfec19..a529db2 100644
--- a/lib/math/pown-impl.myr
+++ b/lib/math/pown-impl.myr
@@ -286,15 +286,21 @@ generic rootngen = {x : @f, q : @u, d : fltdesc(@f, @u, @i) :: numeric,floating,
 	elif std.isnan(x)
 		-> d.frombits(d.nan)
 	elif (x == 0.0 || x == -0.0)
-		if xn && q % 2 == 1
-			/* (+/- 0)^1/q = +/- oo (q odd) */
-			-> d.assem(xn, d.emax, 0)
+		if q % 2 == 1
+			/* (+/- 0)^1/q = +/- 0 (q odd) */
+			-> x
 		else
-			-> d.frombits(d.inf)
+			-> 0.0
 		;;
 	elif q == 1
 		/* Anything^1/1 is itself */
 		-> x
+	elif xn && q % 2 == 0
+		/* there are no even roots of negative numbers */
+		-> d.frombits(d.nan)
+	elif xe > d.emax
+		/* (+/- oo)^1/q = +/- oo (q odd) */
+		-> x
 	elif xe < d.emin
 		/*
 		   Subnormals are actually a problem. If we naively reconstitute xs, it
-- 
2.43.0


From 6026bb6ba47904ccc0a44ea393b98dc7840611b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 131/218] fix: math: limits of powr, pown and scale2

---
 lib/math/exp-impl.myr    |  2 +-
 lib/math/pown-impl.myr   | 20 ++++++++++++++++++--
 lib/math/scale2-impl.myr |  4 ++++
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/math/exp-impl.myr b/lib/math/exp-impl.myr
index d51f8e2..cc07ceb 100644
--- a/lib/math/exp-impl.myr
+++ b/lib/math/exp-impl.myr
@@ -62,7 +62,7 @@ const desc32 : fltdesc(flt32, uint32, int32) = [
 	.inf = 0x7f800000,
 	.nan = 0x7fc00000,
 	.thresh_1_min = 0xc2cff1b4, /* ln(2^(-127 - 23)) ~= -103.9720770839917 */
-	.thresh_1_max = 0x42b17218, /* ln([2 - 2^(-24)] * 2^127) ~= 88.72283905206 */
+	.thresh_1_max = 0x42b17217, /* ln([2 - 2^(-24)] * 2^127) ~= 88.72283905206 */
 	.inv_L = 0x4238aa3b, /* L = log(2) / 32, this is 1/L in working precision */
 	.L1 = 0x3cb17200, /* L1 and L2 sum to give L in high precision, */
 	.L2 = 0x333fbe8e, /* and L1 has some trailing zeroes. */
diff --git a/lib/math/pown-impl.myr b/lib/math/pown-impl.myr
index a529db2..a26fa43 100644
--- a/lib/math/pown-impl.myr
+++ b/lib/math/pown-impl.myr
@@ -210,8 +210,17 @@ generic powngen = {x : @f, n : @i, d : fltdesc(@f, @u, @i) :: numeric,floating,s
 		;;
 	;;
 
+	/*
+	   Below 1, count from the closest power of two, so that the logarithm does
+	   not nearly cancel out the exponent.
+	 */
 	var ln_xs_hi, ln_xs_lo
-	(ln_xs_hi, ln_xs_lo) = d.log_overkill(d.assem(false, 0, xs))
+	if xe == -1
+		xe = 0
+		(ln_xs_hi, ln_xs_lo) = d.log_overkill(d.assem(false, -1, xs))
+	else
+		(ln_xs_hi, ln_xs_lo) = d.log_overkill(d.assem(false, 0, xs))
+	;;
 
 	/* Now x^n = 2^(n * [ ln_xs / ln(2) ]) * 2^(n + e) */
 	var E1, E2
@@ -226,6 +235,13 @@ generic powngen = {x : @f, n : @i, d : fltdesc(@f, @u, @i) :: numeric,floating,s
 	var F1, F2
 	(F1, F2) = d.split_mul(E1, E2, nf, 0.0)
 
+	/* If n is so large, x is between 1/2 and 2, and this decides it all */
+	if F1 > (4 * d.emax : @f)
+		-> ult_sgn * d.frombits(d.inf)
+	elif F1 < (-4 * d.emax : @f)
+		-> ult_sgn * 0.0
+	;;
+
 	var I = rn(F1)
 	(F1, F2) = d.split_add(-1.0 * (I : @f), 0.0, F1, F2)
 
@@ -371,7 +387,7 @@ generic rootngen = {x : @f, q : @u, d : fltdesc(@f, @u, @i) :: numeric,floating,
 	(G1, G2) = d.split_mul(ln_xs_hi, ln_xs_lo, qinv_hi, qinv_lo)
 
 	var E : @i
-	if q > std.abs(xe)
+	if q > (std.abs(xe) : @u)
 		/* Don't cast q to @i unless we're sure it's in small range */
 		E = 0
 	else
diff --git a/lib/math/scale2-impl.myr b/lib/math/scale2-impl.myr
index dc78ef5..4a22af8 100644
--- a/lib/math/scale2-impl.myr
+++ b/lib/math/scale2-impl.myr
@@ -69,6 +69,10 @@ generic scale2gen = {n : bool, e : @i, s : @u, emin : @i, emax : @i, p : @u, m :
 		else
 			eprime = e + m
 		;;
+		if eprime < emin && sprime >> (p - 1) != 0
+			/* rounded up to the least normal number */
+			eprime = emin
+		;;
 		-> (n, eprime, sprime)
 	;;
 
-- 
2.43.0


From 6dc1d3b255e6a4fc4d86dda5c68eaeef015f2457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 132/218] fix: 6: convert between floats and unsigned and
 narrow integers

---
 6/simp.c | 95 +++++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 91 insertions(+), 4 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index 7c27a75..3ba25b4 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -586,6 +586,95 @@ intconvert(Simp *s, Node *from, Type *to, int issigned)
 	return r;
 }
 
+static Node *
+intop(Op op, Node *a, Node *b, Type *ty)
+{
+	Node *n;
+
+	n = mkexpr(a->loc, op, a, b, NULL);
+	n->expr.type = ty;
+	return n;
+}
+
+static Node *
+simpint2flt(Simp *s, Node *val, Type *to)
+{
+	Node *r, *v, *t, *u;
+	Type *i64, *u64;
+
+	i64 = mktype(val->loc, Tyint64);
+	u64 = mktype(val->loc, Tyuint64);
+	switch (tybase(exprtype(val))->type) {
+	case Tyint: case Tyint32: case Tyint64:
+		v = rval(s, val, NULL);
+		break;
+	case Tyint8: case Tyint16:
+		v = intconvert(s, val, i64, 1);
+		break;
+	default:
+		v = intconvert(s, val, i64, 0);
+		break;
+	case Tyuint64:
+		/* The instructions only convert signed numbers, so halve the ones with
+		 * the top bit set, keeping the low bit for the rounding, and double
+		 * what they convert to. */
+		u = gentemp(val->loc, u64, NULL);
+		append(s, set(u, rval(s, val, NULL)));
+		t = gentemp(val->loc, u64, NULL);
+		append(s, set(t, intop(Obsr, u, disp(val->loc, 63), u64)));
+		v = intop(Obsr, u, t, u64);
+		v = intop(Obor, v, intop(Oband, u, t, u64), i64);
+		r = mkexpr(val->loc, Oint2flt, v, NULL);
+		r->expr.type = to;
+		v = mkexpr(val->loc, Oint2flt, addk(t, 1), NULL);
+		v->expr.type = to;
+		return intop(Ofmul, r, v, to);
+	}
+	r = mkexpr(val->loc, Oint2flt, v, NULL);
+	r->expr.type = to;
+	return r;
+}
+
+static Node *
+simpflt2int(Simp *s, Node *val, Type *to)
+{
+	Node *f, *k, *u, *v, *r, *lit;
+	Type *i64, *ty;
+
+	ty = exprtype(val);
+	i64 = mktype(val->loc, Tyint64);
+	switch (tybase(to)->type) {
+	case Tyint: case Tyint32: case Tyint64:
+		r = mkexpr(val->loc, Oflt2int, rval(s, val, NULL), NULL);
+		break;
+	default:
+		v = mkexpr(val->loc, Oflt2int, rval(s, val, NULL), NULL);
+		v->expr.type = i64;
+		r = mkexpr(val->loc, Otrunc, v, NULL);
+		break;
+	case Tyuint64:
+		/* The instructions only convert to signed numbers. The ones that do
+		 * not fit convert to the top bit, and need the rest added. */
+		f = gentemp(val->loc, ty, NULL);
+		append(s, set(f, rval(s, val, NULL)));
+		v = gentemp(val->loc, i64, NULL);
+		r = mkexpr(val->loc, Oflt2int, f, NULL);
+		r->expr.type = i64;
+		append(s, set(v, r));
+		lit = mkfloat(val->loc, 9223372036854775808.0);
+		lit->lit.type = ty;
+		k = mkexpr(val->loc, Olit, lit, NULL);
+		k->expr.type = ty;
+		u = mkexpr(val->loc, Oflt2int, intop(Ofsub, f, simpblob(s, k), ty), NULL);
+		u->expr.type = i64;
+		r = intop(Obsr, v, disp(val->loc, 63), i64);
+		r = intop(Obor, v, intop(Oband, r, u, i64), to);
+		break;
+	}
+	r->expr.type = to;
+	return r;
+}
+
 static Node *
 simpcast(Simp *s, Node *val, Type *to)
 {
@@ -636,8 +725,7 @@ simpcast(Simp *s, Node *val, Type *to)
 			if (tybase(to)->type == Typtr)
 				fatal(val, "bad cast from %s to %s",
 						tystr(exprtype(val)), tystr(to));
-			r = mkexpr(val->loc, Oflt2int, rval(s, val, NULL), NULL);
-			r->expr.type = to;
+			r = simpflt2int(s, val, to);
 			break;
 		default:
 			fatal(val, "bad cast from %s to %s",
@@ -649,8 +737,7 @@ simpcast(Simp *s, Node *val, Type *to)
 		case Tyint8: case Tyint16: case Tyint32: case Tyint64:
 		case Tyuint8: case Tyuint16: case Tyuint32: case Tyuint64:
 		case Tyint: case Tyuint: case Tychar: case Tybyte:
-			r = mkexpr(val->loc, Oint2flt, rval(s, val, NULL), NULL);
-			r->expr.type = to;
+			r = simpint2flt(s, val, to);
 			break;
 		case Tyflt32: case Tyflt64:
 			r = mkexpr(val->loc, Oflt2flt, rval(s, val, NULL), NULL);
-- 
2.43.0


From 6ea305fd7ec9cacefe8d4fc2f2e7bbee1bafab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 133/218] fix: 6: convert single precision floats to integers

---
 6/insns.def | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/6/insns.def b/6/insns.def
index cc80adf..a0d5e55 100644
--- a/6/insns.def
+++ b/6/insns.def
@@ -235,8 +235,8 @@ Insn(Imovs,
     Use(.l={1}),
     Def(.l={2}))
 Insn(Icvttsd2si,
-    "\tcvttsd2si%2t %x,%r\n",
-    "\tCVTTS%T2S%2T %X,%R\n",
+    "\tcvtts%1t2si%2t %x,%r\n",
+    "\tCVTTS%1T2S%2T %X,%R\n",
     Use(.l={1}),
     Def(.l={2}))
 Insn(Icvttsi2sd,
-- 
2.43.0


From 6cd470566e7bfcd53d301576cbabd5a256565f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 134/218] fix: rootn: keep the sign of roots close to one

---
 lib/math/pown-impl.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/math/pown-impl.myr b/lib/math/pown-impl.myr
index a26fa43..c3f8f41 100644
--- a/lib/math/pown-impl.myr
+++ b/lib/math/pown-impl.myr
@@ -355,13 +355,13 @@ generic rootngen = {x : @f, q : @u, d : fltdesc(@f, @u, @i) :: numeric,floating,
 	if xe == 0
 		var cutoff = scale2(qf, -1 * d.precision - 1) + 1.0
 		if (xb & d.nosgn_mask) < d.tobits(cutoff)
-			-> 1.0
+			-> ult_sgn
 		;;
 	elif xe == -1
 		/* Something similar for (1 - e)^q */
 		var cutoff = 1.0 - scale2(qf, -1 * d.precision - 1)
 		if (xb & d.nosgn_mask) > d.tobits(cutoff)
-			-> 1.0
+			-> ult_sgn
 		;;
 	;;
 
-- 
2.43.0


From e82ae9aa8d702eaea5d9d0fa86e7e782f2dee692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 135/218] fix: 6: NaN is not less than anything

---
 6/isel.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index 1d9efae..a571a3a 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -59,8 +59,9 @@ struct {
 	[Ofne] = {Icomis, Ijnz, Isetnz},
 	[Ofgt] = {Icomis, Ija,  Iseta},
 	[Ofge] = {Icomis, Ijae, Isetae},
-	[Oflt] = {Icomis, Ijb,  Isetb},
-	[Ofle] = {Icomis, Ijbe, Isetbe},
+	/* the operands are swapped: ja and jae are false if unordered */
+	[Oflt] = {Icomis, Ija,  Iseta},
+	[Ofle] = {Icomis, Ijae, Isetae},
 };
 
 static Mode
@@ -351,7 +352,7 @@ inri(Isel *s, Loc *a)
 static void
 selcjmp(Isel *s, Node *n, Node **args)
 {
-	Loc *a, *b;
+	Loc *a, *b, *t;
 	Loc *l1, *l2;
 	AsmOp cond, jmp;
 
@@ -365,6 +366,11 @@ selcjmp(Isel *s, Node *n, Node **args)
 			b = selexpr(s, args[0]->expr.args[1]);
 		else
 			b = a;
+		if (exprop(args[0]) == Oflt || exprop(args[0]) == Ofle) {
+			t = a;
+			a = b;
+			b = t;
+		}
 		a = newr(s, a);
 	} else {
 		cond = Itest;
@@ -1063,6 +1069,11 @@ selexpr(Isel *s, Node *n)
 	case Oueq: case Oune: case Ougt: case Ouge: case Oult: case Oule:
 		a = selexpr(s, args[0]);
 		b = selexpr(s, args[1]);
+		if (exprop(n) == Oflt || exprop(n) == Ofle) {
+			c = a;
+			a = b;
+			b = c;
+		}
 		a = newr(s, a);
 		c = locreg(ModeB);
 		r = locreg(mode(n));
-- 
2.43.0


From 41214af7e8d95642c1085bc0f862cd70884371cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 136/218] fix: fold: negate float literals

---
 parse/fold.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parse/fold.c b/parse/fold.c
index 6f61a3b..33e3836 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -221,7 +221,7 @@ idxcmp(const void *pa, const void *pb)
 Node *
 fold(Node *n, int foldvar)
 {
-	Node **args, *r;
+	Node **args, *r, *l;
 	Type *t;
 	vlong a, b;
 	int w;
@@ -320,6 +320,12 @@ fold(Node *n, int foldvar)
 	case Oneg:
 		if (getintlit(args[0], &a))
 			r = val(n->loc, 0 - (uvlong)a, exprtype(n));
+		else if (exprop(args[0]) == Olit && args[0]->expr.args[0]->lit.littype == Lflt) {
+			l = mkfloat(n->loc, -args[0]->expr.args[0]->lit.fltval);
+			l->lit.type = exprtype(n);
+			r = mkexpr(n->loc, Olit, l, NULL);
+			r->expr.type = exprtype(n);
+		}
 		break;
 	case Obsl:
 		w = valbits(exprtype(n));
-- 
2.43.0


From f57a2e7223f49182b7165b6416ba5991e1adbad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 137/218] fix: 6: lay out tuple initialisers of globals

---
 6/simp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/6/simp.c b/6/simp.c
index 3ba25b4..e19b45b 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -1651,6 +1651,7 @@ extractsub(Simp *s, Node *e)
 		}
 		break;
 	case Oarr:
+	case Otup:
 	case Ostruct:
 		for (i = 0; i < e->expr.nargs; i++)
 			extractsub(s, e->expr.args[i]);
@@ -1680,6 +1681,7 @@ simpconstinit(Simp *s, Node *dcl)
 	} else if (e->expr.isconst) {
 		switch (exprop(e)) {
 		case Oarr:
+		case Otup:
 		case Ostruct:
 		case Oslice:
 		case Oucon:
-- 
2.43.0


From 5498a4abfb1b965a1ee0104fecf03ae44725ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 138/218] fix: 6: pad between indexed array elements correctly

---
 6/blob.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/6/blob.c b/6/blob.c
index 9301723..faa59fb 100644
--- a/6/blob.c
+++ b/6/blob.c
@@ -322,7 +322,7 @@ blobrec(Blob *b, Htab *globls, Htab *strtab, Node *n)
 		for (i = 0; i < n->expr.nargs; i++) {
 			if (!getintlit(n->expr.args[i]->expr.idx, &idx))
 				die("non-numeric array size");
-			if (idx != last + 1)
+			if (idx != last)
 				sz += blobpad(b, (idx - last)*size(n->expr.args[i]));
 			sz += blobrec(b, globls, strtab, n->expr.args[i]);
 			last = idx + 1;
-- 
2.43.0


From 62ecde4336efb0d1fd1da508317c6f3cb1c20b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 139/218] fix: 6: don't build aggregates in storage they still
 read

---
 6/simp.c | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/6/simp.c b/6/simp.c
index e19b45b..42312c6 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -861,13 +861,53 @@ tupget(Simp *s, Node *tup, size_t idx, Node *dst)
 	return dst;
 }
 
+/* Can evaluating 'n' read the storage of 'lhs'? */
+static int
+mayread(Node *n, Node *lhs)
+{
+	size_t i;
+
+	switch (exprop(n)) {
+	case Olit:
+		return n->expr.args[0]->lit.littype == Lfunc;
+	case Ovar:
+		return exprop(lhs) != Ovar || n->expr.did == lhs->expr.did;
+	case Oucon:
+		return n->expr.nargs > 1 && mayread(n->expr.args[1], lhs);
+	case Otup:	case Oarr:	case Ostruct:
+	case Ocast:
+		for (i = 0; i < n->expr.nargs; i++)
+			if (mayread(n->expr.args[i], lhs))
+				return 1;
+		return 0;
+	default:
+		return 1;
+	}
+}
+
+/* Aggregates are built piece by piece. If the later pieces may
+ * depend on the old value of the variable that we're assigning
+ * to, they can't be built in place. */
+static int
+inplace(Node *lhs, Node *rhs)
+{
+	switch (exprop(rhs)) {
+	case Olit:
+	case Otup:	case Oarr:	case Ostruct:
+	case Oucon:	case Oslice:
+		return !mayread(rhs, lhs);
+	default:
+		return 1;
+	}
+}
+
 static Node *
 assign(Simp *s, Node *lhs, Node *rhs)
 {
 	Node *t, *u, *v, *r;
 
 	t = lval(s, lhs);
-	u = rval(s, rhs, t);
+	u = rval(s, rhs, inplace(lhs, rhs) ? t : NULL);
 
 	if (tybase(exprtype(lhs))->type == Tyvoid)
 		return u;
-- 
2.43.0


From c7eddaed0ccb90791c037379afd8865853fb066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 140/218] fix: 6: unions make a small aggregate go through
 memory

---
 6/typeinfo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/6/typeinfo.c b/6/typeinfo.c
index b570e00..bfdaf8d 100644
--- a/6/typeinfo.c
+++ b/6/typeinfo.c
@@ -428,10 +428,10 @@ static void join_classification(PassIn *current, PassIn new)
 {
 	if (*current == PassInNoPref) {
 		*current = new;
+	} else if ((*current == PassInMemory) || (new == PassInMemory)) {
+		*current = PassInMemory;
 	} else if ((*current == PassInInt) || (new == PassInInt)) {
 		*current = PassInInt;
-	} else if (*current != new) {
-		*current = PassInMemory;
 	}
 }
 
-- 
2.43.0


From 8c3a94e6d78dcc9da81839449cd2c034a834ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 141/218] fix: 6: ArgAggrF needs a float register

---
 6/isel.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/6/isel.c b/6/isel.c
index a571a3a..9fbafbf 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -632,6 +632,7 @@ sufficientregs(ArgType a, size_t nfloats, size_t nints)
 		int freg;
 	} needed[] = {
 	[ArgAggrI]   = {1, 0},
+	[ArgAggrF]   = {0, 1},
 	[ArgAggrFI]  = {1, 1},
 	[ArgAggrIF]  = {1, 1},
 	[ArgAggrII]  = {2, 0},
-- 
2.43.0


From 43365d6ea835ad70fc57b2e28f84e722c097b64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 142/218] fix: 6: don't read or write past small aggregates in
 calls

---
 6/simp.c | 57 ++++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index 42312c6..ffa623c 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -168,9 +168,15 @@ floatnode(Node *n)
 static void
 forcelocal(Simp *s, Node *n)
 {
+	size_t sz;
+
 	assert(n->type == Ndecl || (n->type == Nexpr && exprop(n) == Ovar));
-	s->stksz += size(n);
-	s->stksz = align(s->stksz, min(size(n), Ptrsz));
+	sz = size(n);
+	/* small aggregates are passed and returned in whole words */
+	if (stacknode(n))
+		sz = align(sz, Ptrsz);
+	s->stksz += sz;
+	s->stksz = align(s->stksz, min(sz, Ptrsz));
 	if (debugopt['i']) {
 		dumpn(n, stdout);
 		printf("declared at %zd, size = %zd\n", s->stksz, size(n));
@@ -887,10 +893,14 @@ mayread(Node *n, Node *lhs)
 
 /* Aggregates are built piece by piece. If the later pieces may
  * depend on the old value of the variable that we're assigning
- * to, they can't be built in place. */
+ * to, they can't be built in place. Initializers are different:
+ * there's no old value, and recursive closures refer to the
+ * variable that's being initialized. */
 static int
 inplace(Node *lhs, Node *rhs)
 {
+	if (exprop(lhs) == Ovar && decls[lhs->expr.did]->decl.init == rhs)
+		return 1;
 	switch (exprop(rhs)) {
 	case Olit:
 	case Otup:	case Oarr:	case Ostruct:
@@ -1189,6 +1199,40 @@ getcode(Simp *s, Node *n)
 	return r;
 }
 
+/* Is a value of this type passed and returned in registers
+ * that hold more bytes than the type has? */
+static int
+partword(Type *t)
+{
+	switch (classify(t)) {
+	case ArgAggrI:
+	case ArgAggrF:
+	case ArgAggrII:
+	case ArgAggrIF:
+	case ArgAggrFI:
+	case ArgAggrFF:
+		return tysize(t) % Ptrsz != 0;
+	default:
+		return 0;
+	}
+}
+
+/* Stack slots are padded to whole words, other memory isn't. */
+static Node *
+padded(Simp *s, Node *n)
+{
+	Node *t, *st;
+
+	if (!partword(exprtype(n)))
+		return n;
+	t = temp(s, n);
+	st = mkexpr(n->loc, Oblit, addr(s, t, exprtype(n)), addr(s, n, exprtype(n)),
+		disp(n->loc, size(n)), NULL);
+	st->expr.type = exprtype(n);
+	append(s, st);
+	return t;
+}
+
 static Node *
 simpcall(Simp *s, Node *n, Node *dst)
 {
@@ -1207,7 +1251,7 @@ simpcall(Simp *s, Node *n, Node *dst)
 	ft = tybase(exprtype(fn));
 	if (exprtype(n)->type == Tyvoid)
 		r = NULL;
-	else if (isstacktype(exprtype(n)) && dst)
+	else if (isstacktype(exprtype(n)) && dst && !partword(exprtype(n)))
 		r = dst;
 	else
 		r = temp(s, n);
@@ -1244,7 +1288,7 @@ simpcall(Simp *s, Node *n, Node *dst)
 			lappend(&args, &nargs, vatypeinfo(s, n));
 		if (tybase(exprtype(n->expr.args[i]))->type == Tyvoid)
 			continue;
-		lappend(&args, &nargs, rval(s, n->expr.args[i], NULL));
+		lappend(&args, &nargs, padded(s, rval(s, n->expr.args[i], NULL)));
 		if (exprop(n->expr.args[i]) == Oaddr)
 			if (exprop(n->expr.args[i]->expr.args[0]) == Ovar)
 				def(s, n->expr.args[i]->expr.args[0]);
@@ -1394,10 +1438,11 @@ rval(Simp *s, Node *n, Node *dst)
 		case ArgAggrFI:
 		case ArgAggrFF:
 			t = s->ret;
-			u = rval(s, args[0], NULL);
+			u = padded(s, rval(s, args[0], NULL));
 			u = addr(s, u, exprtype(args[0]));
 			v = set(t, u);
 			append(s, v);
+			break;
 		case ArgBig:
 			t = rval(s, args[0], NULL);
 			t = addr(s, t, exprtype(args[0]));
-- 
2.43.0


From 697fbbe32512e7074d0940835805b871e6ddf4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 143/218] fix: check nested struct patterns

---
 parse/infer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index b2022eb..3ddaca0 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1532,6 +1532,9 @@ inferpat(Node **np, Node *val, Node ***bind, size_t *nbind)
 	n = *np;
 	n = checkns(n, np);
 	n->expr.ispat = 1;
+	/* outer structs have to be checked before inner ones */
+	if (exprop(n) == Ostruct)
+		delayedcheck(n);
 	args = n->expr.args;
 	for (i = 0; i < n->expr.nargs; i++)
 		if (args[i]->type == Nexpr) {
-- 
2.43.0


From 1133d1214caa17d6ab633a700ac3d7775fa897c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 144/218] fix: compare missing default edges when reusing
 decision trees

---
 mi/match.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index fd443d1..d5f9fff 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -253,8 +253,8 @@ dtreusable(Dtree *dt, Node *load, Node **pat, size_t npat, Dtree **next, size_t
 			return 0;
 	}
 
-	if (dt->any == NULL && any == NULL)
-		return 1;
+	if (dt->any == NULL || any == NULL)
+		return dt->any == any;
 
 	if (dt->any->id != any->id)
 		return 0;
-- 
2.43.0


From 292bb03bdf28e34f728705efb3542acac31c6fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 145/218] fix: match a constant pattern at its own path

---
 mi/match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mi/match.c b/mi/match.c
index d5f9fff..b950d36 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -481,7 +481,7 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 				fatal(dcl, "bad pattern %s:%s: unmatchable type", declname(dcl), tystr(ty));
 			if (!dcl->decl.init)
 				fatal(dcl, "bad pattern %s:%s: missing initializer", declname(dcl), tystr(ty));
-			addrec(fs, dcl->decl.init, val, mkpath(path, 0));
+			addrec(fs, dcl->decl.init, val, path);
 		} else {
 			asn = mkexpr(pat->loc, Oasn, pat, val, NULL);
 			asn->expr.type = exprtype(pat);
-- 
2.43.0


From c9357f58347e6d0bf1c6053632f7707023418cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 146/218] fix: check the default subtree for exhaustiveness

---
 mi/match.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index b950d36..388d9ae 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -836,9 +836,10 @@ verifymatch(Dtree *t)
 	if (t->accept)
 		return 1;
 
-	ret = 0;
-	if (t->nnext == t->nconstructors || t->any)
+	if (t->nnext == t->nconstructors)
 		ret = 1;
+	else
+		ret = t->any && verifymatch(t->any);
 	for (i = 0; i < t->nnext; i++)
 		if (!verifymatch(t->next[i]))
 			ret = 0;
-- 
2.43.0


From 889d2021d49cc391f331fc00e50a106c8c7d0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 147/218] fix: compare constant patterns by value

---
 mi/match.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/mi/match.c b/mi/match.c
index 388d9ae..5240e32 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -217,14 +217,50 @@ loadeq(Node *a, Node *b)
 	return 0;
 }
 
+/* a character or integer constant's value as its type holds it */
+static int
+intpat(Node *n, uvlong *val)
+{
+	switch (n->expr.args[0]->lit.littype) {
+	case Lchr:	*val = n->expr.args[0]->lit.chrval;	break;
+	case Lint:	*val = n->expr.args[0]->lit.intval;	break;
+	default:	return 0;
+	}
+	switch (tybase(exprtype(n))->type) {
+	case Tybyte:
+	case Tyint8:
+	case Tyuint8:
+		*val &= 0xff;
+		break;
+	case Tyint16:
+	case Tyuint16:
+		*val &= 0xffff;
+		break;
+	case Tychar:
+	case Tyint:
+	case Tyuint:
+	case Tyint32:
+	case Tyuint32:
+		*val &= 0xffffffff;
+		break;
+	default:
+		break;
+	}
+	return 1;
+}
+
 static int
 pateq(Node *a, Node *b)
 {
+	uvlong x, y;
+
 	if (exprop(a) != exprop(b))
 		return 0;
 
 	switch (exprop(a)) {
 	case Olit:
+		if (intpat(a, &x) && intpat(b, &y))
+			return x == y;
 		return liteq(a->expr.args[0], b->expr.args[0]);
 	case Ogap:
 	case Ovar:
-- 
2.43.0


From ff22988eb84591c59d4326691447ef17d3494087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 148/218] fix: expand or-patterns below the top of a pattern

---
 mi/match.c | 83 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 29 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index 5240e32..8178a47 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -83,8 +83,6 @@ typedef struct Frontier {
 	size_t ncap;
 	Dtree *final;		/* final state, shared by all Frontiers for a specific (indxed by i) match clause */
 	int hasorpat;		/* the frontier comes from a match arm that contains or-pattern */
-
-	struct Frontier *next;
 } Frontier;
 
 static Node *
@@ -464,23 +462,44 @@ mkfrontier(int i, Node *lbl)
 	return fs;;
 }
 
-/*
- * All immutable fields are shared; mutable fields must be cloned *
+/* orarm copies a pattern, replacing the leftmost or-pattern in it with one of
+ * its arms. It returns NULL if there is no or-pattern.
  */
-static Frontier *
-frontierdup(Frontier *fs)
+static Node *
+orarm(Node *pat, size_t arm)
 {
-	Frontier *out;
+	Node *ret, *sub;
+	size_t i;
 
-	out = mkfrontier(fs->i, fs->lbl);
-	out->slot = memdup(fs->slot, fs->nslot*sizeof(fs->slot[0]));
-	out->nslot = fs->nslot;
-	out->cap = memdup(fs->cap, fs->ncap*sizeof(fs->cap[0]));
-	out->ncap = fs->ncap;
-	return out;
+	if (pat->type != Nexpr)
+		return NULL;
+	switch (exprop(pat)) {
+	case Olor:
+		ret = mknode(pat->loc, Nexpr);
+		ret->expr = pat->expr.args[arm]->expr;
+		ret->expr.idx = pat->expr.idx;
+		return ret;
+	case Oaddr:
+	case Oucon:
+	case Otup:
+	case Oarr:
+	case Ostruct:
+		for (i = 0; i < pat->expr.nargs; i++) {
+			sub = orarm(pat->expr.args[i], arm);
+			if (!sub)
+				continue;
+			ret = mknode(pat->loc, Nexpr);
+			ret->expr = pat->expr;
+			ret->expr.args = memdup(pat->expr.args, pat->expr.nargs*sizeof(Node*));
+			ret->expr.args[i] = sub;
+			return ret;
+		}
+		return NULL;
+	default:
+		return NULL;
+	}
 }
 
-
 /* addrec generates a list of slots for a Frontier by walking a pattern tree.
  * It collects only the terminal patterns like union tags and literals.
  * Non-terminal patterns like tuple/struct/array help encode the path only.
@@ -493,19 +512,9 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 	Node *memb, *name, *tagid, *p, *v, *lit, *dcl, *asn, *deref;
 	Ucon *uc;
 	char *s;
-	Frontier *next;
 
 	pat = fold(pat, 1);
 	switch (exprop(pat)) {
-	case Olor:
-		next = frontierdup(fs);
-		next->next = fs->next;
-		next->hasorpat = 1;
-		fs->next = next;
-		fs->hasorpat = 1;
-		addrec(fs, pat->expr.args[0], val, path);
-		addrec(next, pat->expr.args[1], val, path);
-		break;
 	case Ogap:
 		lappend(&fs->slot, &fs->nslot, mkslot(path, pat, val));
 		break;
@@ -596,13 +605,29 @@ static void
 genfrontier(int i, Node *val, Node *pat, Node *lbl, Frontier ***frontier, size_t *nfrontier)
 {
 	Frontier *fs;
-
-	fs = mkfrontier(i, lbl);
-	addrec(fs, pat, val, mkpath(NULL, 0));
-	while (fs != NULL) {
+	Node **alt;
+	size_t j, start, nalt;
+
+	/* each combination of the arms of the or-patterns gets a frontier */
+	alt = NULL;
+	nalt = 0;
+	start = *nfrontier;
+	lappend(&alt, &nalt, pat);
+	while (nalt > 0) {
+		pat = lpop(&alt, &nalt);
+		if (orarm(pat, 0)) {
+			lappend(&alt, &nalt, orarm(pat, 1));
+			lappend(&alt, &nalt, orarm(pat, 0));
+			continue;
+		}
+		fs = mkfrontier(i, lbl);
+		addrec(fs, pat, val, mkpath(NULL, 0));
 		lappend(frontier, nfrontier, fs);
-		fs = fs->next;
 	}
+	lfree(&alt, &nalt);
+	if (*nfrontier - start > 1)
+		for (j = start; j < *nfrontier; j++)
+			(*frontier)[j]->hasorpat = 1;
 }
 
 /*
-- 
2.43.0


From a3bd74e87257f5a4ea77a8bb8edc4fc3a9480cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 149/218] fix: assign captures on default edges, from loads of
 their own

---
 mi/match.c | 58 +++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 5 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index 8178a47..ff51d29 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -153,6 +153,34 @@ structmemb(Node *n, Node *name, Type *ty)
 	return elt;
 }
 
+/* Later passes rewrite expressions in place, so
+ * every use of a load needs a copy of its own. */
+static Node *
+loadcopy(Node *n)
+{
+	Node *ret;
+	size_t i;
+
+	switch (exprop(n)) {
+	case Outag:
+	case Oudata:
+	case Oderef:
+	case Omemb:
+	case Otupget:
+	case Oidx:
+	case Oasn:
+		ret = mknode(n->loc, Nexpr);
+		ret->expr = n->expr;
+		ret->expr.args = memdup(n->expr.args, n->expr.nargs*sizeof(Node*));
+		for (i = 0; i < n->expr.nargs; i++)
+			if (n->expr.args[i]->type == Nexpr)
+				ret->expr.args[i] = loadcopy(n->expr.args[i]);
+		return ret;
+	default:
+		return n;
+	}
+}
+
 static Node *
 addcapture(Node *n, Node **cap, size_t ncap)
 {
@@ -169,7 +197,7 @@ addcapture(Node *n, Node **cap, size_t ncap)
 				continue;
 			assert(n->block.stmts[i]->decl.init == NULL);
 			assert(cap[j]->expr.args[0]->expr.op == Ovar);
-			n->block.stmts[i]->decl.init = cap[j]->expr.args[1];
+			n->block.stmts[i]->decl.init = loadcopy(cap[j]->expr.args[1]);
 		}
 	}
 	return n;
@@ -188,6 +216,15 @@ mkdtree(Srcloc loc, Node *lbl)
 	return t;
 }
 
+static void
+emitcaptures(Dtree *dt, Node ***out, size_t *nout)
+{
+	size_t i;
+
+	for (i = 0; i < dt->ncap; i++)
+		lappend(out, nout, loadcopy(dt->cap[i]));
+}
+
 static int
 loadeq(Node *a, Node *b)
 {
@@ -1079,7 +1116,7 @@ void
 genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 {
 	Node *jmp, *eq, *fail;
-	Node *next;
+	Node *next, *any;
 	int emit;
 	size_t i;
 
@@ -1095,10 +1132,17 @@ genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 		return;
 	}
 
+	any = NULL;
+	if (dt->any) {
+		if (dt->any->accept && dt->any->ncap > 0)
+			any = genlbl(dt->any->loc);
+		else
+			any = dt->any->lbl;
+	}
 	lappend(out, nout, dt->lbl);
 	for (i = 0; i < dt->nnext; i++) {
 		if (i == dt->nnext - 1 && dt->any) {
-			fail = dt->any->lbl;
+			fail = any;
 			emit = 0;
 		} else {
 			fail = genlbl(dt->loc);
@@ -1110,7 +1154,7 @@ genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 			next = dt->next[i]->lbl;
 		}
 
-		eq = mkexpr(dt->loc, Oeq, dt->load, dt->pat[i], NULL);
+		eq = mkexpr(dt->loc, Oeq, loadcopy(dt->load), dt->pat[i], NULL);
 		eq->expr.type = mktype(dt->loc, Tybool);
 		jmp = mkexpr(dt->loc, Ocjmp, eq, next, fail, NULL);
 		jmp->expr.type = mktype(dt->loc, Tyvoid);
@@ -1118,7 +1162,7 @@ genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 
 		if (dt->next[i]->accept && dt->next[i]->ncap > 0) {
 			lappend(out, nout, next);
-			lcat(out, nout, dt->next[i]->cap, dt->next[i]->ncap);
+			emitcaptures(dt->next[i], out, nout);
 			jmp = mkexpr(dt->loc, Ojmp, dt->next[i]->lbl, NULL);
 			jmp->expr.type = mktype(dt->loc, Tyvoid);
 			lappend(out, nout, jmp);
@@ -1129,6 +1173,10 @@ genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 			lappend(out, nout, fail);
 	}
 	if (dt->any) {
+		if (any != dt->any->lbl) {
+			lappend(out, nout, any);
+			emitcaptures(dt->any, out, nout);
+		}
 		jmp = mkexpr(dt->loc, Ojmp, dt->any->lbl, NULL);
 		jmp->expr.type = mktype(dt->loc, Tyvoid);
 		lappend(out, nout, jmp);
-- 
2.43.0


From 70f9266968d93a69577cc7d1d1f43f3496ea1ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 150/218] fix: evaluate the base of an open slice once

---
 mi/flatten.c  | 10 ++++++++++
 parse/fold.c  |  7 +++++++
 parse/infer.c | 31 ++++++++++++++++++++++++++++++-
 parse/node.c  |  2 +-
 4 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 2176c33..356c4e5 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -543,6 +543,16 @@ rval(Flattenctx *s, Node *n)
 		r = mkexpr(n->loc, Oidx, t, u, NULL);
 		r->expr.type = n->expr.type;
 		break;
+	case Osllen:
+		r = seqlen(s, args[0], exprtype(n));
+		break;
+	case Oslice:
+		/* an open slice ends where its base does: evaluate that once */
+		args[0] = rval(s, args[0]);
+		if (exprop(args[2]) == Osllen)
+			args[2]->expr.args[0] = args[0];
+		r = visit(s, n);
+		break;
 		/* array.len slice.len are magic 'virtual' members.
 		 * they need to be special cased. */
 	case Omemb:
diff --git a/parse/fold.c b/parse/fold.c
index 33e3836..6b5c9a0 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -355,6 +355,13 @@ fold(Node *n, int foldvar)
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
 			r = val(n->loc, a ^ b, exprtype(n));
 		break;
+	case Osllen:
+		t = tybase(exprtype(args[0]));
+		if (t->type == Tyarray) {
+			r = t->asize;
+			r->expr.type = exprtype(n);
+		}
+		break;
 	case Omemb:
 		t = tybase(exprtype(args[0]));
 		/* we only fold lengths right now */
diff --git a/parse/infer.c b/parse/infer.c
index 3ddaca0..1e4bdd3 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1809,6 +1809,11 @@ inferexpr(Node **np, Type *ret, int *sawret)
 		settype(n, mktyvar(n->loc));
 		delayedcheck(n);
 		break;
+	case Osllen:	/* @a[lo:] -> @a, verify that @a has a length later */
+		infersub(n, ret, sawret, &isconst);
+		settype(n, mktyvar(n->loc));
+		delayedcheck(n);
+		break;
 	case Osize:	/* sizeof(@a) -> size */
 		settype(n, mktylike(n->loc, Tyuint));
 		inferdecl(args[0]);
@@ -1905,7 +1910,7 @@ inferexpr(Node **np, Type *ret, int *sawret)
 		   n->expr.type = mktype(n->loc, Tyvoid);
 		   break;
 	/* unexpected in frontend */
-	case Obad: case Ocjmp: case Ovjmp: case Oset: case Oslbase: case Osllen:
+	case Obad: case Ocjmp: case Ovjmp: case Oset: case Oslbase:
 	case Outag: case Ocallind: case Oblit: case Oclear: case Oudata: case Otrunc:
 	case Oswiden: case Ozwiden: case Oint2flt: case Oflt2int: case Oflt2flt:
 	case Ofadd: case Ofsub: case Ofmul: case Ofdiv: case Ofneg: case Ofeq:
@@ -2422,6 +2427,29 @@ checkstruct(Node *n, Postcheck ***post, size_t *npost)
 	}
 }
 
+/* the end of an open slice */
+static void
+infersllen(Node *n, Postcheck ***post, size_t *npost)
+{
+	Postcheck *pc;
+	Type *t;
+
+	t = tybase(tf(type(n->expr.args[0])));
+	if (t->type == Tyvar) {
+		pc = xalloc(sizeof(Postcheck));
+		pc->node = n;
+		pc->stab = curstab();
+		pc->env = curenv();
+		lappend(post, npost, pc);
+		return;
+	}
+	if (t->type != Tyslice && t->type != Tyarray)
+		fatal(n->expr.args[0], "type %s has no length to slice to near %s",
+				tystr(type(n->expr.args[0])), ctxstr(n->expr.args[0]));
+	constrain(n, type(n), traittab[Tcnum]);
+	constrain(n, type(n), traittab[Tcint]);
+}
+
 static void
 checkvar(Node *n, Postcheck ***post, size_t *npost)
 {
@@ -2493,6 +2521,7 @@ postcheckpass(Postcheck ***post, size_t *npost)
 			switch (exprop(n)) {
 			case Otupmemb:
 			case Omemb:	infercompn(n, post, npost);	break;
+			case Osllen:	infersllen(n, post, npost);	break;
 			case Ocast:	checkcast(n, post, npost);	break;
 			case Ostruct:	checkstruct(n, post, npost);	break;
 			case Ovar:	checkvar(n, post, npost);	break;
diff --git a/parse/node.c b/parse/node.c
index b3cef6c..741d951 100644
--- a/parse/node.c
+++ b/parse/node.c
@@ -94,7 +94,7 @@ mksliceexpr(Srcloc loc, Node *sl, Node *base, Node *off)
 	if (!base)
 		base = mkintlit(loc, 0);
 	if (!off)
-		off = mkexpr(loc, Omemb, sl, mkname(loc, "len"), NULL);
+		off = mkexpr(loc, Osllen, sl, NULL);
 	return mkexpr(loc, Oslice, sl, base, off, NULL);
 }
 
-- 
2.43.0


From 57860957c9a4a6003ff742379971c48380ef11e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 151/218] fix: keep outer type parameters in inner environments

---
 parse/infer.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 1e4bdd3..a85fa69 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -339,8 +339,26 @@ typeerror(Type *a, Type *b, Node *ctx, char *msg)
 static void
 setsuperenv(Tyenv *e, Tyenv *super)
 {
-	if (e)
-		e->super = super;
+	Tyenv *s;
+	size_t i, nk;
+	void **k;
+	Type *t;
+
+	if (!e)
+		return;
+	e->super = super;
+	/* the parameters bound outside are the same ones in here */
+	k = htkeys(e->tab, &nk);
+	for (i = 0; i < nk; i++) {
+		for (s = super; s; s = s->super) {
+			t = htget(s->tab, k[i]);
+			if (t) {
+				htput(e->tab, k[i], t);
+				break;
+			}
+		}
+	}
+	free(k);
 }
 
 /* Set a scope's enclosing scope up correctly. */
-- 
2.43.0


From c3d5b8781f4729e3d667adfd5ed3996d34ab26a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 152/218] fix: compare array sizes and elements when picking an
 impl

---
 parse/infer.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index a85fa69..ae90bb2 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -864,13 +864,16 @@ tymatchrank(Type *pat, Type *to)
 	case Tyarray:
 		/* unsized arrays are ok */
 		if (pat->asize && to->asize) {
-			if (!!litvaleq(pat->asize->expr.args[0], to->asize->expr.args[0]))
+			pat->asize = fold(pat->asize, 1);
+			to->asize = fold(to->asize, 1);
+			if (exprop(pat->asize) != Olit || exprop(to->asize) != Olit)
+				return -1;
+			if (!litvaleq(pat->asize->expr.args[0], to->asize->expr.args[0]))
 				return -1;
 		} else if (pat->asize != to->asize) {
 			return -1;
 		}
-		else return tymatchrank(pat->sub[0], to->sub[0]);
-		break;
+		return tymatchrank(pat->sub[0], to->sub[0]);
 	default:
 		if (pat->nsub != to->nsub)
 			break;
-- 
2.43.0


From fb2384ff3f8c033f2900acaa13e6b39fbaff3167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 153/218] fix: look through pointers and slices for required
 traits

---
 parse/infer.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index ae90bb2..0be95d2 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -895,16 +895,19 @@ tryconstrain(Type *base, Trait *tr, int update)
 {
 	Traitmap *tm;
 	Bitset *bs;
-	Type *ty;
+	Type *ty, *t;
 	size_t i;
 
 	while(1) {
 		ty = base;
 		tm = traitmap->sub[ty->type];
 		while (1) {
-			if (ty->type == Typaram)
-				if (ty->trneed && bshas(ty->trneed, tr->uid))
+			if (ty->type == Typaram) {
+				if ((t = boundtype(ty)) == NULL)
+					t = ty;
+				if (t->trneed && bshas(t->trneed, tr->uid))
 					return 1;
+			}
 			if (ty->type == Tyvar) {
 				if (!ty->trneed)
 					ty->trneed = mkbs();
@@ -990,7 +993,7 @@ verifytraits(Node *ctx, Type *a, Type *b)
 {
 	char traitbuf[64], abuf[64], bbuf[64];
 	char asrc[128], bsrc[128];
-	Bitset *abs, *bbs;
+	Bitset *abs, *bbs, *missing;
 	size_t i, n;
 	Srcloc l;
 	char *sep;
@@ -1005,12 +1008,16 @@ verifytraits(Node *ctx, Type *a, Type *b)
 		bbs = mkbs();
 		traitsfor(b, bbs);
 	}
-	if (!bsissubset(abs, bbs)) {
+	missing = mkbs();
+	for (i = 0; bsiter(abs, &i); i++)
+		if (!bshas(bbs, i) && !tryconstrain(b, traittab[i], 0))
+			bsput(missing, i);
+	if (!bsisempty(missing)) {
 		sep = "";
 		n = 0;
 		*traitbuf = 0;
 		for (i = 0; bsiter(abs, &i); i++) {
-			if (!bshas(bbs, i)) {
+			if (bshas(missing, i)) {
 				n += bprintf(traitbuf + n, sizeof(traitbuf) - n, "%s%s", sep,
 					     namestr(traittab[i]->name));
 				sep = ",";
@@ -1026,6 +1033,7 @@ verifytraits(Node *ctx, Type *a, Type *b)
 		fatal(ctx, "%s needs trait %s near %s%s%s",
 			bbuf, traitbuf, ctxstr(ctx), srcstr(a), srcstr(b));
 	}
+	bsfree(missing);
 	if (!a->trneed)
 		bsfree(abs);
 	if (!b->trneed)
@@ -1044,7 +1052,7 @@ mergetraits(Node *ctx, Type *a, Type *b)
 			b->trneed = bsdup(a->trneed);
 		else if (b->trneed)
 			a->trneed = bsdup(b->trneed);
-	} else {
+	} else if (a->trneed) {
 		verifytraits(ctx, a, b);
 	}
 }
-- 
2.43.0


From 46019ced0f417ce86ae0b060780fd6d1e0b46210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 154/218] fix: resolve the type parameters of impl() in
 generics

---
 parse/infer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 0be95d2..28ec66a 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1891,6 +1891,8 @@ inferexpr(Node **np, Type *ret, int *sawret)
 			fatal(n, "undeclared var %s", ctxstr(args[0]));
 		if (n->expr.param && !s->decl.trait)
 			fatal(n, "var %s must refer to a trait decl", ctxstr(args[0]));
+		if (n->expr.param)
+			n->expr.param = tf(n->expr.param);
 		pushenv(s->decl.env);
 		initvar(n, s);
 		popenv(s->decl.env);
-- 
2.43.0


From ecb5d7091aa50cd63941ae05081446cbe1305a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 155/218] fix: specialize the arguments of generic types in
 signatures

---
 parse/specialize.c | 16 +++++++++++-----
 parse/type.c       |  1 +
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/parse/specialize.c b/parse/specialize.c
index 6e8c6fd..3560209 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -86,8 +86,8 @@ tyspecialize(Type *orig, Tysubst *tsmap, Htab *delayed)
 {
 	Type *t, *ret, *tmp, *var;
 	Traitspec *ts;
-	size_t i, narg;
-	Type **arg;
+	size_t i, narg, niarg;
+	Type **arg, **iarg;
 
 	t = tysearch(orig);
 	tmp = substget(tsmap, t);
@@ -112,12 +112,18 @@ tyspecialize(Type *orig, Tysubst *tsmap, Htab *delayed)
 		break;
 	case Tygeneric:
 		var = mktyvar(t->loc);
-		substput(tsmap, t, var);
 		if (orig->type == Tyunres) {
-			substpush(tsmap);
+			/* the arguments are in terms of what is around the type */
+			iarg = NULL;
+			niarg = 0;
 			for (i = 0; i < orig->narg; i++)
-				substput(tsmap, t->gparam[i], orig->arg[i]);
+				lappend(&iarg, &niarg, tyspecialize(orig->arg[i], tsmap, delayed));
+			substpush(tsmap);
+			for (i = 0; i < niarg; i++)
+				substput(tsmap, t->gparam[i], iarg[i]);
+			lfree(&iarg, &niarg);
 		}
+		substput(tsmap, t, var);
 		for (i = 0; i < t->ngparam; i++)
 			lappend(&arg, &narg, tyspecialize(t->gparam[i], tsmap, delayed));
 		ret = mktyname(t->loc, t->name, tyspecialize(t->sub[0], tsmap, delayed));
diff --git a/parse/type.c b/parse/type.c
index 31a9d35..200fb40 100644
--- a/parse/type.c
+++ b/parse/type.c
@@ -437,6 +437,7 @@ hasparamsrec(Type *t, Bitset *visited)
 {
 	size_t i;
 
+	t = tysearch(t);
 	if (bshas(visited, t->tid))
 		return 0;
 	bsput(visited, t->tid);
-- 
2.43.0


From 950a13d9ef26842b416f98301ad0c3e559dc8b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 156/218] fix: match up trait aux types by the right index

---
 parse/specialize.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse/specialize.c b/parse/specialize.c
index 3560209..843c975 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -210,8 +210,10 @@ substputspec(Tysubst *tsmap, Type *from, Type *to)
 		for (aj = 0; aj < from->spec[ai]->ntrait; aj++) {
 			for (bi = 0; bi < to->nspec; bi++) {
 				for (bj = 0; bj < to->spec[bi]->ntrait; bj++) {
+					if (!from->spec[ai]->aux || !to->spec[bi]->aux)
+						continue;
 					if (nameeq(from->spec[ai]->trait[aj], to->spec[bi]->trait[bj]))
-						fillsubst(tsmap, to->spec[ai]->aux, from->spec[bi]->aux);
+						fillsubst(tsmap, to->spec[bi]->aux, from->spec[ai]->aux);
 				}
 			}
 			if (nameeq(from->spec[ai]->trait[aj], traittab[Tciter]->name))
-- 
2.43.0


From 76b45354908e60177dcfe3b205bee955808a80e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:08 +0000
Subject: [PATCH 157/218] fix: make no cycles of type environments

---
 parse/infer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 28ec66a..fe8bb79 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -346,6 +346,10 @@ setsuperenv(Tyenv *e, Tyenv *super)
 
 	if (!e)
 		return;
+	/* a loop would keep lookups that miss going forever */
+	for (s = super; s; s = s->super)
+		if (s == e)
+			return;
 	e->super = super;
 	/* the parameters bound outside are the same ones in here */
 	k = htkeys(e->tab, &nk);
-- 
2.43.0


From 62b23006b2d838b27ac110d4765dcc362c2ac0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 158/218] fix: run __iterfin__ when a for loop's body ends with
 continue

---
 mi/flatten.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 356c4e5..ec39e14 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -988,7 +988,7 @@ flattentraititer(Flattenctx *s, Node *n)
 
 	s->inloop++;
 	l = s->loop;
-	s->loop.lcnt = lstep;
+	s->loop.lcnt = lclean;
 	s->loop.lbrk = lend;
 	s->loop.body = n->iterstmt.body->block.scope;
 
-- 
2.43.0


From 5959c572cb2b3ff6b269820f3b97eaf75101bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 159/218] fix: accept auto of a type parameter's value in a
 generic

---
 parse/infer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index fe8bb79..4da9020 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2890,6 +2890,8 @@ specialize(void)
 			tr = traittab[Tcdisp];
 			assert(tr->nproto == 1);
 			ty = exprtype(n);
+			if (hasparams(ty))
+				goto enditer;
 			dt = mktyfunc(n->loc, NULL, 0, mktype(n->loc, Tyvoid));
 			lappend(&dt->sub, &dt->nsub, ty);
 			d = specializedcl(tr->proto[0], ty, dt, &name);
-- 
2.43.0


From c372edd66231e6ae02bc7d522dfaa173a0f62e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:06 +0000
Subject: [PATCH 160/218] fix: keep all 64 bits of integer literals in use
 files

---
 mbld/libs.myr |  2 +-
 parse/parse.h |  2 +-
 parse/use.c   |  4 ++--
 util/pack.c   | 16 ++++++++++++++++
 util/util.h   |  2 ++
 5 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/mbld/libs.myr b/mbld/libs.myr
index 66d0957..37460ef 100644
--- a/mbld/libs.myr
+++ b/mbld/libs.myr
@@ -23,7 +23,7 @@ pkg bld =
 ;;
 
 /* Keep in sync with parse/parse.h */
-const Abiversion = 23
+const Abiversion = 24
 
 const builtlib = {b, mt, dep, dyndep
 	var ldep, l, u
diff --git a/parse/parse.h b/parse/parse.h
index e3b402f..b45118c 100644
--- a/parse/parse.h
+++ b/parse/parse.h
@@ -1,4 +1,4 @@
-#define Abiversion 23
+#define Abiversion 24
 
 typedef struct Srcloc Srcloc;
 typedef struct Tysubst Tysubst;
diff --git a/parse/use.c b/parse/use.c
index 5b01860..5c2d3f1 100644
--- a/parse/use.c
+++ b/parse/use.c
@@ -528,7 +528,7 @@ pickle(FILE *fd, Node *n)
 		switch (n->lit.littype) {
 		case Lvoid:	break;
 		case Lchr:	wrint(fd, n->lit.chrval);	break;
-		case Lint:	wrint(fd, n->lit.intval);	break;
+		case Lint:	wrvlong(fd, n->lit.intval);	break;
 		case Lflt:	wrflt(fd, n->lit.fltval);	break;
 		case Lstr:	wrlenstr(fd, n->lit.strval);	break;
 		case Llbl:	wrstr(fd, n->lit.lblval);	break;
@@ -651,7 +651,7 @@ unpickle(FILE *fd)
 		switch (n->lit.littype) {
 		case Lvoid:	break;
 		case Lchr:	n->lit.chrval = rdint(fd);	break;
-		case Lint:	n->lit.intval = rdint(fd);	break;
+		case Lint:	n->lit.intval = rdvlong(fd);	break;
 		case Lflt:	n->lit.fltval = rdflt(fd);	break;
 		case Lstr:	rdlenstr(fd, &n->lit.strval);	break;
 		case Llbl:	n->lit.lblval = rdstr(fd);	break;
diff --git a/util/pack.c b/util/pack.c
index 6457ba0..1333cee 100644
--- a/util/pack.c
+++ b/util/pack.c
@@ -128,6 +128,22 @@ rdint(FILE *fd)
 	return host32(buf);
 }
 
+void
+wrvlong(FILE *fd, vlong val)
+{
+	byte buf[8];
+	be64(val, buf);
+	wrbuf(fd, buf, 8);
+}
+
+vlong
+rdvlong(FILE *fd)
+{
+	byte buf[8];
+	rdbuf(fd, buf, 8);
+	return host64(buf);
+}
+
 void
 wrstr(FILE *fd, char *val)
 {
diff --git a/util/util.h b/util/util.h
index be09dfc..a807b7c 100644
--- a/util/util.h
+++ b/util/util.h
@@ -146,6 +146,8 @@ void rdbuf(FILE *fd, void *buf, size_t sz);
 char rdbyte(FILE *fd);
 void wrbyte(FILE *fd, char val);
 char rdbyte(FILE *fd);
+void wrvlong(FILE *fd, vlong val);
+vlong rdvlong(FILE *fd);
 void wrint(FILE *fd, long val);
 long rdint(FILE *fd);
 void wrstr(FILE *fd, char *val);
-- 
2.43.0


From 33225956c42845bc78149f31f96c6268c5ebc27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:33 +0000
Subject: [PATCH 161/218] fix: export what initialisers of locals in generics
 refer to

---
 parse/export.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/export.c b/parse/export.c
index fb7b05f..aacb6a5 100644
--- a/parse/export.c
+++ b/parse/export.c
@@ -188,7 +188,7 @@ tagnode(Stab *st, Node *n, int ingeneric, int hidelocal)
 			n->decl.vis = Vishidden;
 		n->decl.isexportval = isexportval(n);
 		if (n->decl.isexportval || ingeneric)
-			tagnode(st, n->decl.init, n->decl.isgeneric, hidelocal);
+			tagnode(st, n->decl.init, n->decl.isgeneric || (ingeneric && !n->decl.isglobl), hidelocal);
 		break;
 	case Nfunc:
 		tagtype(st, n->func.type, ingeneric, hidelocal);
-- 
2.43.0


From c3872df273df449906994e8725bfb55c20cae9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:33 +0000
Subject: [PATCH 162/218] fix: keep hidden declarations hidden when merging use
 files

---
 parse/export.c | 2 +-
 parse/stab.c   | 2 ++
 parse/use.c    | 5 ++++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/parse/export.c b/parse/export.c
index aacb6a5..1c783d4 100644
--- a/parse/export.c
+++ b/parse/export.c
@@ -240,7 +240,7 @@ tagexports(int hidelocal)
 	k = htkeys(st->dcl, &n);
 	for (i = 0; i < n; i++) {
 		s = getdcl(st, k[i]);
-		if (s->decl.vis == Visexport)
+		if (s->decl.vis == Visexport || s->decl.vis == Vishidden)
 			tagnode(st, s, 0, hidelocal);
 	}
 	free(k);
diff --git a/parse/stab.c b/parse/stab.c
index 67fbeef..276c68e 100644
--- a/parse/stab.c
+++ b/parse/stab.c
@@ -349,6 +349,8 @@ mergedecl(Node *old, Node *new)
 
 	if (old->decl.isimport && new->decl.isimport) {
 		old->decl.ishidden = old->decl.ishidden && new->decl.ishidden;
+		if (new->decl.vis == Visexport)
+			old->decl.vis = Visexport;
 		return 1;
 	}
 	if (old->decl.isextern || new->decl.isextern) {
diff --git a/parse/use.c b/parse/use.c
index 5c2d3f1..0a8170d 100644
--- a/parse/use.c
+++ b/parse/use.c
@@ -998,7 +998,10 @@ foundextlib:
 		case 'G':
 		case 'D':
 			dcl = rdsym(f, NULL);
-			dcl->decl.vis = vis;
+			if (dcl->decl.ishidden && vis == Visexport)
+				dcl->decl.vis = Vishidden;
+			else
+				dcl->decl.vis = vis;
 			dcl->decl.isglobl = 1;
 			putdcl(s, dcl);
 			break;
-- 
2.43.0


From 6873e10b0667ee1dc319f9d917989f18f2135ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:33 +0000
Subject: [PATCH 163/218] fix: merge traits read from several use files

---
 parse/use.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse/use.c b/parse/use.c
index 0a8170d..20fcc4f 100644
--- a/parse/use.c
+++ b/parse/use.c
@@ -1020,6 +1020,8 @@ foundextlib:
 			tr = traitunpickle(f);
 			tr->vis = vis;
 			puttrait(s, tr->name, tr);
+			if (!hthas(trdeduptab, tr->name))
+				htput(trdeduptab, tr->name, tr);
 			for (i = 0; i < tr->nproto; i++) {
 				putdcl(s, tr->proto[i]);
 				tr->proto[i]->decl.ishidden = tr->ishidden;
-- 
2.43.0


From 997ee7c42affae1ad490e72f778f59387e587e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:14 +0000
Subject: [PATCH 164/218] fix: do not read beyond the table of needed registers

---
 6/isel.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/6/isel.c b/6/isel.c
index 9fbafbf..5f71345 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -637,6 +637,7 @@ sufficientregs(ArgType a, size_t nfloats, size_t nints)
 	[ArgAggrIF]  = {1, 1},
 	[ArgAggrII]  = {2, 0},
 	[ArgAggrFF]  = {0, 2},
+	[ArgBig]     = {0, 0},
 	};
 
 	return (needed[a].freg + nfloats <= Nfloatregargs) && (needed[a].ireg + nints <= Nintregargs);
-- 
2.43.0


From 63808d3290f1b04d6d985ab6e163a2a34857a904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 165/218] fix: reject compound assignments to constants

---
 parse/infer.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 4da9020..113f5f3 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1659,6 +1659,23 @@ addbindings(Node *n, Node **bind, size_t nbind)
 	}
 }
 
+/* constants can't be modified, whichever operator does it */
+static void
+checkasn(Node *n)
+{
+	switch (exprop(n)) {
+	case Oasn:
+	case Oaddeq: case Osubeq: case Omuleq: case Odiveq: case Omodeq:
+	case Oboreq: case Obandeq: case Obxoreq: case Obsleq: case Obsreq:
+	case Opreinc: case Opredec: case Opostinc: case Opostdec:
+		if (n->expr.args[0]->expr.isconst)
+			fatal(n, "attempting to assign constant \"%s\"", ctxstr(n->expr.args[0]));
+		break;
+	default:
+		break;
+	}
+}
+
 static void
 infersub(Node *n, Type *ret, int *sawret, int *exprconst)
 {
@@ -1724,6 +1741,7 @@ inferexpr(Node **np, Type *ret, int *sawret)
 		infersub(n, ret, sawret, &isconst);
 		t = type(args[0]);
 		constrain(n, t, traittab[Tcnum]);
+		checkasn(n);
 		isconst = args[0]->expr.isconst;
 		for (i = 1; i < nargs; i++) {
 			isconst = isconst && args[i]->expr.isconst;
@@ -1753,6 +1771,7 @@ inferexpr(Node **np, Type *ret, int *sawret)
 		t = type(args[0]);
 		constrain(n, t, traittab[Tcnum]);
 		constrain(n, t, traittab[Tcint]);
+		checkasn(n);
 		isconst = args[0]->expr.isconst;
 		for (i = 1; i < nargs; i++) {
 			isconst = isconst && args[i]->expr.isconst;
@@ -1767,8 +1786,7 @@ inferexpr(Node **np, Type *ret, int *sawret)
 		for (i = 1; i < nargs; i++)
 			t = unify(n, t, type(args[i]));
 		settype(n, t);
-		if (args[0]->expr.isconst)
-			fatal(n, "attempting to assign constant \"%s\"", ctxstr(args[0]));
+		checkasn(n);
 		break;
 
 		/* operands same type, returning bool */
-- 
2.43.0


From f99d0eb295837d90c19608ffff7339317ef59e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 166/218] fix: comparison operators need numeric operands

---
 parse/infer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 113f5f3..71fe55f 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1809,6 +1809,8 @@ inferexpr(Node **np, Type *ret, int *sawret)
 	case Ole:	/* @a <= @b -> bool */
 		infersub(n, ret, sawret, &isconst);
 		t = type(args[0]);
+		if (exprop(n) == Ogt || exprop(n) == Oge || exprop(n) == Olt || exprop(n) == Ole)
+			constrain(n, t, traittab[Tcnum]);
 		for (i = 1; i < nargs; i++)
 			unify(n, t, type(args[i]));
 		settype(n, mktype(Zloc, Tybool));
-- 
2.43.0


From 9c88bd22b23542a062081947000637fbd104cc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 167/218] fix: reject incomplete impls

---
 parse/infer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 71fe55f..7cb08ee 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2016,6 +2016,9 @@ specializeimpl(Node *n)
 	pushenv(n->impl.env);
 	for (i = 0; i < n->impl.naux; i++)
 		n->impl.aux[i] = tf(n->impl.aux[i]);
+	if (!n->impl.isproto && n->impl.ndecls < tr->nproto)
+		fatal(n, "impl %s %s defines %zd of the trait's %zd declarations",
+			namestr(tr->name), tystr(n->impl.type), n->impl.ndecls, tr->nproto);
 	for (i = 0; i < n->impl.ndecls; i++) {
 		/* look up the prototype */
 		proto = NULL;
-- 
2.43.0


From fda8931c9cdc323203ca85850f657624deda9d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 168/218] fix: report missing impls where they are needed

---
 parse/infer.c      | 8 ++++----
 parse/parse.h      | 2 +-
 parse/specialize.c | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 7cb08ee..15039e2 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2917,10 +2917,10 @@ specialize(void)
 				goto enditer;
 			dt = mktyfunc(n->loc, NULL, 0, mktype(n->loc, Tyvoid));
 			lappend(&dt->sub, &dt->nsub, ty);
-			d = specializedcl(tr->proto[0], ty, dt, &name);
+			d = specializedcl(n, tr->proto[0], ty, dt, &name);
 			htput(tr->proto[0]->decl.impls, ty, d);
 		} else if (n->type == Nexpr && exprop(n) == Ovar) {
-			d = specializedcl(genericdecls[i], n->expr.param, n->expr.type, &name);
+			d = specializedcl(n, genericdecls[i], n->expr.param, n->expr.type, &name);
 			n->expr.args[0] = name;
 			n->expr.did = d->decl.did;
 		} else if (n->type == Niterstmt) {
@@ -2931,11 +2931,11 @@ specialize(void)
 				goto enditer;
 
 			it = itertype(n->iterstmt.seq, mktype(n->loc, Tybool));
-			d = specializedcl(tr->proto[0], ty, it, &name);
+			d = specializedcl(n, tr->proto[0], ty, it, &name);
 			htput(tr->proto[0]->decl.impls, ty, d);
 
 			it = itertype(n->iterstmt.seq, mktype(n->loc, Tyvoid));
-			d = specializedcl(tr->proto[1], ty, it, &name);
+			d = specializedcl(n, tr->proto[1], ty, it, &name);
 			htput(tr->proto[1]->decl.impls, ty, d);
 		} else {
 			die("unknown node for specialization\n");
diff --git a/parse/parse.h b/parse/parse.h
index b45118c..1f8ca9e 100644
--- a/parse/parse.h
+++ b/parse/parse.h
@@ -556,7 +556,7 @@ Tysubst *mksubst(void);
 void substfree(Tysubst *subst);
 void substput(Tysubst *subst, Type *from, Type *to);
 Type *substget(Tysubst *subst, Type *from);
-Node *specializedcl(Node *n, Type *param, Type *to, Node **name);
+Node *specializedcl(Node *ctx, Node *n, Type *param, Type *to, Node **name);
 Type *tyspecialize(Type *t, Tysubst *tymap, Htab *delayed);
 Node *genericname(Node *n, Type *param, Type *t);
 void genautocall(Node **, size_t, Node *, char *);
diff --git a/parse/specialize.c b/parse/specialize.c
index 843c975..7aad238 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -277,7 +277,7 @@ fixup(Node *n)
 			if (!d)
 				die("Missing decl %s", namestr(n->expr.args[0]));
 			if (d->decl.isgeneric)
-				d = specializedcl(d, n->expr.param, n->expr.type, &n->expr.args[0]);
+				d = specializedcl(n, d, n->expr.param, n->expr.type, &n->expr.args[0]);
 			n->expr.did = d->decl.did;
 		}
 		break;
@@ -543,7 +543,7 @@ bestimpl(Node *n, Type *to)
  * a name for this specialized node, and returns it in '*name'.
  */
 Node *
-specializedcl(Node *gnode, Type *param, Type *to, Node **name)
+specializedcl(Node *ctx, Node *gnode, Type *param, Type *to, Node **name)
 {
 	Tysubst *tsmap;
 	Node *g, *d, *n;
@@ -566,7 +566,7 @@ specializedcl(Node *gnode, Type *param, Type *to, Node **name)
 	if (gnode->decl.trait) {
 		g = bestimpl(gnode, to);
 		if (!g)
-			fatal(gnode, "type %s does not implement %s:%s",
+			fatal(ctx, "type %s does not implement %s:%s",
 				tystr(param), namestr(gnode->decl.name), tystr(to));
 	} else {
 		g = gnode;
-- 
2.43.0


From 90fed2d5703e41356e9b1b1bfd8527df18c85246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:33 +0000
Subject: [PATCH 169/218] fix: do not limit the nesting of scopes

---
 parse/stab.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/parse/stab.c b/parse/stab.c
index 276c68e..67b8dac 100644
--- a/parse/stab.c
+++ b/parse/stab.c
@@ -28,11 +28,10 @@ struct Traitdefn {
 	Trait *trait;
 };
 
-#define Maxstabdepth 128
-static Stab *stabstk[Maxstabdepth];
+static Stab **stabstk;
 static size_t stabstkoff;
 
-static Tyenv *envstk[Maxstabdepth];
+static Tyenv **envstk;
 static size_t envstkoff;
 
 
@@ -104,15 +103,14 @@ curstab()
 void
 pushstab(Stab *st)
 {
-	assert(stabstkoff < Maxstabdepth);
-	stabstk[stabstkoff++] = st;
+	lappend(&stabstk, &stabstkoff, st);
 }
 
 void
 popstab()
 {
 	assert(stabstkoff > 0);
-	stabstkoff--;
+	lpop(&stabstk, &stabstkoff);
 }
 
 ulong
@@ -152,8 +150,7 @@ pushenv(Tyenv *env)
 {
 	if (!env)
 		return;
-	assert(envstkoff < Maxstabdepth);
-	envstk[envstkoff++] = env;
+	lappend(&envstk, &envstkoff, env);
 }
 
 void
@@ -162,7 +159,7 @@ popenv(Tyenv *env)
 	if (!env)
 		return;
 	assert(envstkoff > 0);
-	envstkoff--;
+	lpop(&envstk, &envstkoff);
 }
 
 Stab *
-- 
2.43.0


From 9cad54efe8f859e7c3837514eeaacc47e57e497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:33 +0000
Subject: [PATCH 170/218] fix: diagnose unbound types in impls instead of
 aborting

---
 parse/type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/type.c b/parse/type.c
index 200fb40..9456457 100644
--- a/parse/type.c
+++ b/parse/type.c
@@ -974,7 +974,7 @@ tyidfmt(char *buf, size_t sz, Type *ty)
 	switch (ty->type) {
 	case Ntypes:
 	case Tybad:	die("invalid type");	break;
-	case Tyvar:	die("tyvar has no idstr");	break;
+	case Tyvar:	lfatal(ty->loc, "underconstrained type");	break;
 	case Tyvoid:	p += bprintf(p, end - p, "v");	break;
 	case Tychar:	p += bprintf(p, end - p, "c");	break;
 	case Tybool:	p += bprintf(p, end - p, "t");	break;
-- 
2.43.0


From 3897bd1eefe8eb3e724cd6e46e0dc6850101a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:33 +0000
Subject: [PATCH 171/218] fix: diagnose non-integer array sizes

---
 parse/infer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 15039e2..44f1fdb 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2310,6 +2310,9 @@ tyfix(Node *ctx, Type *orig, int noerr)
 		case Tyarray:
 			if (t->type == Tyarray && t->asize)
 				t->asize = fold(t->asize, 1);
+			if (t->asize && exprop(t->asize) == Olit &&
+			    t->asize->expr.args[0]->lit.littype != Lint)
+				fatal(t->asize, "array size is not an integer near %s", ctxstr(t->asize));
 			if (t->asize && getintlit(t->asize, &val) && val < 0)
 				fatal(t->asize, "negative array size %lld\n", val);
 			typesub(t->asize, noerr);
-- 
2.43.0


From f415721dda66e4ea03c3754b4f700342ab1defbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:33 +0000
Subject: [PATCH 172/218] fix: verify member and index operands after inference

---
 parse/infer.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 44f1fdb..fee3d54 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2760,6 +2760,31 @@ verifyop(Node *n)
 		if (bty->type != Tyarray)
 			fatal(n, "wrong type for struct literal: %s\n", tystr(ty));
 		break;
+	case Omemb:
+	case Otupmemb:
+		/* the operand's type may only have been settled by a default */
+		ty = exprtype(n->expr.args[0]);
+		bty = tybase(ty);
+		if (bty->type == Typtr)
+			bty = tybase(bty->sub[0]);
+		if (exprop(n) == Otupmemb && bty->type != Tytuple)
+			fatal(n, "type %s does not support tuple access operators near %s",
+				tystr(ty), ctxstr(n));
+		if (exprop(n) == Omemb && bty->type != Tystruct && bty->type != Tyunion &&
+		    bty->type != Tyslice && bty->type != Tyarray)
+			fatal(n, "type %s does not support member operators near %s",
+				tystr(ty), ctxstr(n));
+		break;
+	case Oidx:
+	case Oslice:
+		ty = exprtype(n->expr.args[0]);
+		bty = tybase(ty);
+		if (bty->type == Tyslice || bty->type == Tyarray || bty->type == Typaram)
+			break;
+		if (exprop(n) == Oslice && bty->type == Typtr)
+			break;
+		fatal(n, "type %s can not be indexed near %s", tystr(ty), ctxstr(n));
+		break;
 	default:
 		break;
 	}
-- 
2.43.0


From d9c0a8477188e2249e93b05ccb2e63a7de4d089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:49 +0000
Subject: [PATCH 173/218] fix: diagnose void operands of logical operators

---
 parse/infer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index fee3d54..64891ec 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2775,6 +2775,11 @@ verifyop(Node *n)
 			fatal(n, "type %s does not support member operators near %s",
 				tystr(ty), ctxstr(n));
 		break;
+	case Oland:
+	case Olor:
+		if (!n->expr.ispat && tybase(exprtype(n->expr.args[0]))->type == Tyvoid)
+			fatal(n, "void operand of %s", oppretty[exprop(n)]);
+		break;
 	case Oidx:
 	case Oslice:
 		ty = exprtype(n->expr.args[0]);
-- 
2.43.0


From d668ef0e46b9a3b1d2fd4f4d1c835d313dd6fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:49 +0000
Subject: [PATCH 174/218] fix: diagnose types that contain themselves through
 pointers

---
 parse/infer.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/parse/infer.c b/parse/infer.c
index 64891ec..baa5bea 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -432,6 +432,28 @@ occursin(Type *a, Type *b)
 	return r;
 }
 
+/* Checks if a type variable is a part of the type, at any depth: unlike a
+ * named type, it can't be contained in itself even through a pointer. */
+static int
+varoccurs(Type *v, Type *t)
+{
+	size_t i;
+
+	t = tf(t);
+	if (t == v)
+		return 1;
+	if (t->type == Tyname) {
+		for (i = 0; i < t->narg; i++)
+			if (varoccurs(v, t->arg[i]))
+				return 1;
+		return 0;
+	}
+	for (i = 0; i < t->nsub; i++)
+		if (varoccurs(v, t->sub[i]))
+			return 1;
+	return 0;
+}
+
 static int
 occurs(Type *t)
 {
@@ -1226,7 +1248,7 @@ unify(Node *ctx, Type *u, Type *v)
 
 	/* Disallow recursive types */
 	if (a->type == Tyvar && b->type != Tyvar) {
-		if (occursin(a, b))
+		if (occursin(a, b) || varoccurs(a, b))
 			fatal(ctx, "%s occurs within %s, leading to infinite type near %s\n",
 				tystr(a), tystr(b), ctxstr(ctx));
 	}
-- 
2.43.0


From 7ccd43a8d7f2df5b20de06de2877e180c7584427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:49 +0000
Subject: [PATCH 175/218] fix: infer array literal indexes before folding them

---
 parse/infer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse/infer.c b/parse/infer.c
index baa5bea..c2f17d1 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1490,6 +1490,7 @@ arraysize(Node *n)
 	args = n->expr.args;
 	for (i = 0; i < n->expr.nargs; i++) {
 		if (args[i]->expr.idx) {
+			infernode(&args[i]->expr.idx, NULL, NULL);
 			args[i]->expr.idx = fold(args[i]->expr.idx, 1);
 			idx = args[i]->expr.idx;
 			if (exprop(idx) != Olit)
-- 
2.43.0


From d9204c045fb9ffe383b6ccdab839e1aa26fb3159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:50 +0000
Subject: [PATCH 176/218] fix: check that main is a function

---
 parse/infer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/infer.c b/parse/infer.c
index c2f17d1..58aae73 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2732,7 +2732,7 @@ initcompatible(Type *t)
 static int
 maincompatible(Type *t)
 {
-	if (t->nsub > 2)
+	if (t->type != Tyfunc || t->nsub > 2)
 		return 0;
 	if (tybase(t->sub[0])->type != Tyvoid)
 		return 0;
-- 
2.43.0


From caf818d1709d50008a20f4cdd5a37358a1730b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:50 +0000
Subject: [PATCH 177/218] fix: give labels of generic instances unique names

---
 parse/specialize.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parse/specialize.c b/parse/specialize.c
index 7aad238..ec92495 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -343,6 +343,9 @@ fixup(Node *n)
 	}
 }
 
+/* the number of specializations made so far */
+static size_t nspecialized;
+
 /*
  * Duplicates a node, replacing all things that
  * need to be specialized to make it concrete
@@ -352,7 +355,7 @@ static Node *
 specializenode(Node *n, Tysubst *tsmap)
 {
 	Node *r;
-	size_t i;
+	size_t i, len;
 
 	if (!n)
 		return NULL;
@@ -387,7 +390,12 @@ specializenode(Node *n, Tysubst *tsmap)
 		case Lint:	r->lit.intval = n->lit.intval;	break;
 		case Lflt:	r->lit.fltval = n->lit.fltval;	break;
 		case Lstr:	r->lit.strval = n->lit.strval;	break;
-		case Llbl:	r->lit.lblval = n->lit.lblval;	break;
+		case Llbl:
+			/* labels are unique in the whole file */
+			len = strlen(n->lit.lblval) + 32;
+			r->lit.lblval = xalloc(len);
+			bprintf(r->lit.lblval, len, "%s.%zd", n->lit.lblval, nspecialized);
+			break;
 		case Lbool:	r->lit.boolval = n->lit.boolval;	break;
 		case Lfunc:	r->lit.fnval = specializenode(n->lit.fnval, tsmap);	break;
 		}
@@ -585,6 +593,7 @@ specializedcl(Node *ctx, Node *gnode, Type *param, Type *to, Node **name)
 	d->decl.isconst = g->decl.isconst;
 	d->decl.isextern = g->decl.isextern;
 	d->decl.isglobl = g->decl.isglobl;
+	nspecialized++;
 	d->decl.init = specializenode(g->decl.init, tsmap);
 	putdcl(st, d);
 
-- 
2.43.0


From 0338f61da2ad9c19c2985bf6088b704dc3859921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:08 +0000
Subject: [PATCH 178/218] fix: pass aggregates without data

---
 6/typeinfo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/6/typeinfo.c b/6/typeinfo.c
index bfdaf8d..6450abb 100644
--- a/6/typeinfo.c
+++ b/6/typeinfo.c
@@ -553,7 +553,8 @@ classify(Type *t)
 	} else if (isstacktype(t)) {
 		if (isaggregate(t) && sz <= 16) {
 			classify_recursive(t, pi, &total_offset);
-			if (pi[0] == PassInMemory || pi[1] == PassInMemory) {
+			/* an aggregate with no data has nothing to classify */
+			if (pi[0] == PassInNoPref || pi[0] == PassInMemory || pi[1] == PassInMemory) {
 				return ArgBig;
 			}
 
-- 
2.43.0


From 1a0767e96b86b57eb6316bdf295b794d82f2f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:08 +0000
Subject: [PATCH 179/218] fix: take the address of void variables

---
 6/isel.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/6/isel.c b/6/isel.c
index 5f71345..c8fb6da 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -1051,6 +1051,9 @@ selexpr(Isel *s, Node *n)
 		if (a->type == Loclbl || (a->type == Locmeml && !a->mem.base)) {
 			r = loclitl(a->lbl);
 		} else {
+			/* even void values have an address */
+			if (a->mode == ModeNone)
+				a->mode = ModeQ;
 			r = locreg(ModeQ);
 			g(s, Ilea, a, r, NULL);
 		}
-- 
2.43.0


From 88fbb22f064d37cc068220f42ad1fff9421b6d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:08 +0000
Subject: [PATCH 180/218] fix: diagnose unsupported initializers

---
 6/blob.c | 3 +--
 6/simp.c | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/6/blob.c b/6/blob.c
index faa59fb..156fcd4 100644
--- a/6/blob.c
+++ b/6/blob.c
@@ -332,8 +332,7 @@ blobrec(Blob *b, Htab *globls, Htab *strtab, Node *n)
 		sz += blobpad(b, end - sz);
 		break;
 	default:
-		dumpn(n, stdout);
-		die("Nonliteral initializer for global");
+		fatal(n, "unsupported initializer for global");
 		break;
 	}
 	return sz;
diff --git a/6/simp.c b/6/simp.c
index ffa623c..74e5255 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -1779,7 +1779,7 @@ simpconstinit(Simp *s, Node *dcl)
 			break;
 		}
 	} else {
-		die("Non-constant initializer for %s\n", declname(dcl));
+		fatal(dcl, "non-constant initializer for %s", declname(dcl));
 	}
 }
 
-- 
2.43.0


From 3efbb211289f279cd6fe47e6859e370a264d81cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:08 +0000
Subject: [PATCH 181/218] fix: diagnose functions nested too deeply

---
 parse/gram.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/gram.y b/parse/gram.y
index 9b8f36e..d06a7a1 100644
--- a/parse/gram.y
+++ b/parse/gram.y
@@ -892,7 +892,8 @@ strlit : Tstrlit { $$ = mkstr($1->loc, $1->strval); }
 	;
 
 obrace	: Tobrace {
-		assert(lbldepth < LBLSTKSZ);
+		if (lbldepth + 1 >= LBLSTKSZ)
+			lfatal($1->loc, "functions nested too deeply");
 		lbldepth++;
 	}
 	;
-- 
2.43.0


From eac82150fb3e684bcd4bf9016623d47d26cb37f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:08 +0000
Subject: [PATCH 182/218] fix: do not merge imported declarations with a file's
 own

---
 parse/stab.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/stab.c b/parse/stab.c
index 67b8dac..92b8310 100644
--- a/parse/stab.c
+++ b/parse/stab.c
@@ -354,6 +354,9 @@ mergedecl(Node *old, Node *new)
 		old->decl.isextern = old->decl.isextern && new->decl.isextern;
 		return 1;
 	}
+	/* a prototype is completed in its own file, and not by what is imported */
+	if (old->decl.isimport != new->decl.isimport)
+		return 0;
 	if (old->decl.vis == Visexport && new->decl.vis != Visexport) {
 		e = old;
 		g = new;
-- 
2.43.0


From 5186db8274d2a9f5258bd66bf98bc7880246f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 183/218] fix: copy the environment of functions given to
 thread.do

---
 lib/thread/do.myr | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/thread/do.myr b/lib/thread/do.myr
index 3a4449f..cd5a60b 100644
--- a/lib/thread/do.myr
+++ b/lib/thread/do.myr
@@ -8,10 +8,15 @@ pkg thread =
 ;;
 
 generic do = {fn
-	var r
+	var r, f
 
+	/* fn's environment may be gone by the time the thread runs */
+	f = std.fndup(fn)
 	r = mkfut()
-	spawn({; futput(r, fn()) })
+	spawn({
+		futput(r, f())
+		std.fnfree(f)
+	})
 	-> r
 }
 
-- 
2.43.0


From 8945270e26ef5af4b5d791906b31e392a82b5ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 184/218] fix: clear new thread local slots and the cpu set

---
 lib/thread/ncpu+linux.myr | 2 ++
 lib/thread/tls+fsbase.myr | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/thread/ncpu+linux.myr b/lib/thread/ncpu+linux.myr
index 5c2ea15..02f8cb7 100644
--- a/lib/thread/ncpu+linux.myr
+++ b/lib/thread/ncpu+linux.myr
@@ -9,6 +9,8 @@ const ncpu = {
 	var cpubuf : uint64[4]
 	var n
 
+	/* the kernel only fills in as much as it needs */
+	std.slfill(cpubuf[:], 0)
 	sys.sched_getaffinity(sys.getpid(), sizeof(uint64[4]), (&cpubuf : uint64#))
 	n = 0
 	for b : cpubuf[:]
diff --git a/lib/thread/tls+fsbase.myr b/lib/thread/tls+fsbase.myr
index 0b59373..ebb493b 100644
--- a/lib/thread/tls+fsbase.myr
+++ b/lib/thread/tls+fsbase.myr
@@ -29,7 +29,7 @@ generic tlsalloc = {
 	if _hdr.len++ == _cap
 		std.assert(_cap < 0x8000_0000, "error: max tls slots exceeded\n")
 		var l = sizeof(tlshdr) + ((_cap : std.size) * sizeof(void#))
-		var h = std.bytealloc(sizeof(tlshdr) + ((_cap *= 2 : std.size) * sizeof(void#)))
+		var h = std.zbytealloc(sizeof(tlshdr) + ((_cap *= 2 : std.size) * sizeof(void#)))
 
 		std.memblit(h, (_hdr : byte#), l)
 		setfsbase((h : tlshdr#))
-- 
2.43.0


From 2bad9a46a1120773c263a3f2ddb6cd3e8470e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 185/218] fix: report failed mmaps as Mapbad, call getsockopt

---
 lib/sys/sys+linux-x64.myr                   | 10 ++++++++--
 support/syscall-gen/specials+linux-x64.frag | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/sys/sys+linux-x64.myr b/lib/sys/sys+linux-x64.myr
index 10ab534..809b7ba 100644
--- a/lib/sys/sys+linux-x64.myr
+++ b/lib/sys/sys+linux-x64.myr
@@ -1725,12 +1725,18 @@ pkg sys =
 	const listen	= {sock, backlog;	-> (syscall(Syslisten, a(sock), a(backlog)) : int)}
 	const accept	= {sock, addr, lenp;	-> (syscall(Sysaccept, a(sock), a(addr), a(lenp)) : fd)}
 	const setsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
-	const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
+	const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Sysgetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
 
 	/* memory mapping */
 	const munmap	= {addr, len;		-> syscall(Sysmunmap, a(addr), a(len))}
 	const mmap	= {addr, len, prot, flags, fd, off;
-		-> (syscall(Sysmmap, a(addr), a(len), a(prot), a(flags), a(fd), a(off)) : byte#)
+		var r = syscall(Sysmmap, a(addr), a(len), a(prot), a(flags), a(fd), a(off))
+
+		/* failure is reported as a negated errno */
+		if r < 0 && r > -4096
+			-> Mapbad
+		;;
+		-> (r : byte#)
 	}
 
 	/* time */
diff --git a/support/syscall-gen/specials+linux-x64.frag b/support/syscall-gen/specials+linux-x64.frag
index 6f8b806..915b45d 100644
--- a/support/syscall-gen/specials+linux-x64.frag
+++ b/support/syscall-gen/specials+linux-x64.frag
@@ -226,12 +226,18 @@ const bind	= {sock, addr, len;	-> (syscall(Sysbind, a(sock), a(addr), a(len)) :
 const listen	= {sock, backlog;	-> (syscall(Syslisten, a(sock), a(backlog)) : int)}
 const accept	= {sock, addr, lenp;	-> (syscall(Sysaccept, a(sock), a(addr), a(lenp)) : fd)}
 const setsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
-const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
+const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Sysgetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
 
 /* memory mapping */
 const munmap	= {addr, len;		-> syscall(Sysmunmap, a(addr), a(len))}
 const mmap	= {addr, len, prot, flags, fd, off;
-	-> (syscall(Sysmmap, a(addr), a(len), a(prot), a(flags), a(fd), a(off)) : byte#)
+	var r = syscall(Sysmmap, a(addr), a(len), a(prot), a(flags), a(fd), a(off))
+
+	/* failure is reported as a negated errno */
+	if r < 0 && r > -4096
+		-> Mapbad
+	;;
+	-> (r : byte#)
 }
 
 /* time */
-- 
2.43.0


From 215731a84598b77f3056a3b2a2c0f4fba96ecb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:46 +0000
Subject: [PATCH 186/218] fix: draw uniformly from any range, fill all random
 bytes, never seed with zero state

---
 lib/crypto/rand.myr | 18 +++++++----------
 lib/std/rand.myr    | 48 +++++++++++++++++++++++++++------------------
 2 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/lib/crypto/rand.myr b/lib/crypto/rand.myr
index 21eb2a3..c66689a 100644
--- a/lib/crypto/rand.myr
+++ b/lib/crypto/rand.myr
@@ -24,21 +24,17 @@ const __init__ = {
 }
 
 generic rand = {lo, hi
-	var span, lim, val, max
-	
-	span = std.abs(hi - lo)
+	var span, lim, val, max : uint64
+
+	/* the span may not fit in a signed @a */
+	span = (hi : uint64) - (lo : uint64)
 	max = ~0
-	/* if ~0 is negative, we have a signed value with a different max */
-	if max < 0
-	        max = (1 << (8*sizeof(@a)-1)) - 1
-	;;
-	
 	lim = (max/span)*span
-	val = (randnum() & max)
+	val = randnum()
 	while val >= lim
-	        val = (randnum() & max)
+		val = randnum()
 	;;
-	-> val % span + lo
+	-> (val % span : @a) + lo
 }
 
 generic randnum	= {
diff --git a/lib/std/rand.myr b/lib/std/rand.myr
index 9cea564..1f719ac 100644
--- a/lib/std/rand.myr
+++ b/lib/std/rand.myr
@@ -39,10 +39,26 @@ const __init__ = {
 }
 
 const mksrng = {seed : uint32 -> rng#
-	-> std.mk([
-		.s0=(seed & 0xffff : uint64),
-		.s1=(seed&0xffff0000>>16 : uint64)
-	])
+	var rng, z
+
+	/*
+	The state must not be all zero, and similar seeds should not start with
+	similar outputs: expand the seed using splitmix64.
+	*/
+	z = (seed : uint64)
+	rng = mk([.s0=splitmix(&z)])
+	rng.s1 = splitmix(&z)
+	-> rng
+}
+
+const splitmix = {state
+	var z : uint64
+
+	state# += 0x9e3779b97f4a7c15
+	z = state#
+	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
+	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
+	-> z ^ (z >> 31)
 }
 
 const freerng	= {r
@@ -50,31 +66,25 @@ const freerng	= {r
 }
 
 generic rngrand = {rng, lo, hi
-	var span, lim, val, max
-	
-	span = abs(hi - lo)
+	var span, lim, val, max : uint64
+
+	/* the span may not fit in a signed @a */
+	span = (hi : uint64) - (lo : uint64)
 	max = ~0
-	/* if ~0 is negative, we have a signed value with a different max */
-	if max < 0
-	        max = (1 << (8*sizeof(@a)-1)) - 1
-	;;
-	
 	lim = (max/span)*span
-	val = (rngrandnum(rng) & max)
-	while val > lim
-	        val = (rngrandnum(rng) & max)
+	val = rngrandnum(rng)
+	while val >= lim
+		val = rngrandnum(rng)
 	;;
-	-> val % span + lo
+	-> (val % span : @a) + lo
 }
 
 const rngrandbytes = {rng, buf
 	var n, r : uint64
 
-	n = 0
-	for var i = 0; i + 8 < buf.len/8; i++
+	for n = 0; n + 8 <= buf.len; n += 8
 		r = rngrandnum(rng)
 		putle64(buf[n:n+8], r)
-		n += 8
 	;;
 	r = rngrandnum(rng)
 	for ; n != buf.len; n++
-- 
2.43.0


From 0995dcd8d030c37f970889fd649e16c3b07c1c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:32 +0000
Subject: [PATCH 187/218] fix: find test plans after other output, accept
 results on unfinished lines

---
 mbld/subtest.myr | 48 ++++++++++++++++++------------------------------
 mbld/test.myr    |  2 +-
 2 files changed, 19 insertions(+), 31 deletions(-)

diff --git a/mbld/subtest.myr b/mbld/subtest.myr
index 9327fbe..dffc7fd 100644
--- a/mbld/subtest.myr
+++ b/mbld/subtest.myr
@@ -33,38 +33,25 @@ const showsub = {b, cmd, fd, logfd, failed
 		bio.write(log, "\n")
 	;;
 	res = `std.None
-	match bio.readln(f)
-	| `std.Err `bio.Eof:
-		-> `std.None
-	| `std.Err e:
-		std.fatal("error reading subfile: {}\n", e)
-	| `std.Ok ln:
-		match testplan(ln)
-		| `std.None:
-			bio.put(log, "{}\n", ln)
-			showraw(fd, logfd)
-		| `std.Some ntests:
-			res = `std.Some showtests(b, cmd, failed, \
-				f, log, ntests)
-		;;
-
-		std.slfree(ln)
-	;;
-	-> res
-}
-
-const showraw = {f, log
-	var buf : byte[:]
-
-	buf = std.slalloc(64*std.KiB)
+	/* the plan may come after other output */
 	while true
-		match std.read(f, buf[:])
-		| `std.Ok 0:	break
-		| `std.Ok n:	std.write(log, buf[:n])
-		| `std.Err e:	std.fatal("error writing log: {}\n", e)
+		match bio.readln(f)
+		| `std.Err `bio.Eof:
+			break
+		| `std.Err e:
+			std.fatal("error reading subfile: {}\n", e)
+		| `std.Ok ln:
+			match testplan(ln)
+			| `std.None:
+				bio.put(log, "{}\n", ln)
+			| `std.Some ntests:
+				res = `std.Some showtests(b, cmd, failed, \
+					f, log, ntests)
+			;;
+			std.slfree(ln)
 		;;
 	;;
-	std.slfree(buf)
+	-> res
 }
 
 const showtests = {b, cmd, failed, f, log, ntests
@@ -234,7 +221,8 @@ const testhead = {ln
 }
 
 const testfoot = {ln
-	match regex.exec(footpat, ln)
+	/* the test may not have ended its last line of output */
+	match regex.search(footpat, ln)
 	| `std.Some m:
 		match m[1]
 		| "skip":	-> `std.Some `Skip
diff --git a/mbld/test.myr b/mbld/test.myr
index f74c5cf..fd43fa8 100644
--- a/mbld/test.myr
+++ b/mbld/test.myr
@@ -97,7 +97,7 @@ const runtest = {b, n, targs, logdir, isbench, failed
 			logfd = std.try(std.dup(std.Out))
 		else
 			log = std.fmt("{}/{}.log", logdir, std.basename(n.lbl))
-			logfd = std.try(std.openmode(log, std.Owrite | std.Ocreat, 0o644))
+			logfd = std.try(std.openmode(log, std.Owrite | std.Ocreat | std.Otrunc, 0o644))
 		;;
 		sub = showsub(b, n.lbl, outfd, logfd, failed)
 		std.slfree(log)
-- 
2.43.0


From 939ef32a81bed8256d6895fd347fd5cd3eafb335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:57 +0000
Subject: [PATCH 188/218] fix: bytealloc: keep the last chunk of a cached slab
 on its free list

---
 lib/std/bytealloc.myr | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/std/bytealloc.myr b/lib/std/bytealloc.myr
index 669654e..324fa20 100644
--- a/lib/std/bytealloc.myr
+++ b/lib/std/bytealloc.myr
@@ -378,6 +378,10 @@ const bktfree = {bkt, m
 		We should solve this better somehow.
 		*/
 		if bkt.ncache < Cachemax || !Canunmap
+			/* the slab comes back complete */
+			s.nfree++
+			c.next = s.freehd
+			s.freehd = c
 			s.next = bkt.cache
 			s.prev = Zslab
 			bkt.cache = s
-- 
2.43.0


From 70de21f51cb0edb779a9cca908aa7f40db55879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:57 +0000
Subject: [PATCH 189/218] fix: alloc: free the old block when growing an
 emptied slice

---
 lib/std/alloc.myr | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/std/alloc.myr b/lib/std/alloc.myr
index f395e2d..f45627e 100644
--- a/lib/std/alloc.myr
+++ b/lib/std/alloc.myr
@@ -157,9 +157,7 @@ generic slgrow = {sl : @a[:]#, len
 	new = slalloc(nel)
 	n = min(len, sl#.len)
 	memblit((new : byte#), (sl# : byte#), n * sizeof(@a))
-	if sl#.len > 0
-		slfree(sl#)
-	;;
+	slfree(sl#)
 	sl# = new[:len]
 	-> sl#
 }
-- 
2.43.0


From f0decf9045bf186505874162b448d211835d6f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:52 +0000
Subject: [PATCH 190/218] fix: fileutil: rmrf: do not follow links, remove
 every entry, close directories

---
 lib/fileutil/del.myr              | 26 +++++---------------------
 lib/fileutil/loopcheck+plan9.myr  |  5 +++++
 lib/fileutil/loopcheck+posixy.myr |  7 +++++++
 3 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/lib/fileutil/del.myr b/lib/fileutil/del.myr
index c82bfc9..cb52645 100644
--- a/lib/fileutil/del.myr
+++ b/lib/fileutil/del.myr
@@ -6,38 +6,22 @@ pkg fileutil =
 	const rmrf	: (dir : byte[:] -> bool)
 ;;
 
-const rmrf = {dir
-	var loopck, ok
-	
-	loopck = mkloopcheck(dir)
-	ok = rmrf_rec(dir, loopck)
-	freeloopcheck(loopck)
-	-> ok
-}
-
-const rmrf_rec = {path, loopck
+const rmrf = {path
 	var ok, p
 
 	ok = true
-	if std.fisdir(path)
+	if std.fisdir(path) && !islink(path)
 		match std.diropen(path)
 		| `std.Err e:
 			ok = false
 		| `std.Ok d:
 			for e : std.byentry(d)
-				if std.sleq(e, ".") || std.sleq(e, "..")
-					continue
-				;;
 				p = std.pathcat(path, e)
-				if !looped(loopck, p)
-					ok = ok && rmrf(p)
-				;;
+				ok = rmrf(p) && ok
 				std.slfree(p)
 			;;
-			ok = ok && std.remove(path)
+			std.dirclose(d)
 		;;
-	else
-		ok = ok && std.remove(path)
 	;;
-	-> ok
+	-> std.remove(path) && ok
 }
diff --git a/lib/fileutil/loopcheck+plan9.myr b/lib/fileutil/loopcheck+plan9.myr
index 9b5584b..6e1afbf 100644
--- a/lib/fileutil/loopcheck+plan9.myr
+++ b/lib/fileutil/loopcheck+plan9.myr
@@ -7,6 +7,7 @@ pkg fileutil =
 	const mkloopcheck	: (cwd : byte[:] -> loopcheck)
 	const freeloopcheck	: (l : loopcheck -> void)
 	const looped	: (l : loopcheck, p : byte[:] -> bool)
+	pkglocal const islink	: (p : byte[:] -> bool)
 ;;
 
 const mkloopcheck = {cwd
@@ -19,3 +20,7 @@ const freeloopcheck = {l
 const looped = {l, p
 	-> false
 }
+
+const islink = {p
+	-> false
+}
diff --git a/lib/fileutil/loopcheck+posixy.myr b/lib/fileutil/loopcheck+posixy.myr
index c01e109..2e581b8 100644
--- a/lib/fileutil/loopcheck+posixy.myr
+++ b/lib/fileutil/loopcheck+posixy.myr
@@ -8,6 +8,7 @@ pkg fileutil =
 	const mkloopcheck	: (cwd : byte[:] -> loopcheck)
 	const freeloopcheck	: (l : loopcheck -> void)
 	const looped	: (l : loopcheck, p : byte[:] -> bool)
+	pkglocal const islink	: (p : byte[:] -> bool)
 ;;
 
 const mkloopcheck = {cwd
@@ -38,6 +39,12 @@ const looped = {l, p
 	;;
 }
 
+const islink = {p
+	var sb
+
+	-> sys.lstat(p, &sb) == 0 && sb.mode & sys.Sifmt == sys.Siflnk
+}
+
 const fid = {p
 	var sb
 
-- 
2.43.0


From 2468815fca4b11ba63614494bd9afdc020334ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:52 +0000
Subject: [PATCH 191/218] fix: fileutil: walk: check only directories for loops

---
 lib/fileutil/walk.myr | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/fileutil/walk.myr b/lib/fileutil/walk.myr
index dbdfb5f..8397c62 100644
--- a/lib/fileutil/walk.myr
+++ b/lib/fileutil/walk.myr
@@ -45,11 +45,11 @@ impl iterable walkiter -> byte[:] =
 		| `std.Some "..":	goto nextfile
 		| `std.Some ent:
 			p = std.pathcat(itp.curdir[itp.curdir.len - 1], ent)
-			if looped(itp.loopck, p)
-				std.slfree(p)
-				goto nextfile
-			;;
 			if std.fisdir(p)
+				if looped(itp.loopck, p)
+					std.slfree(p)
+					goto nextfile
+				;;
 				match std.diropen(p)
 				| `std.Ok d:
 					std.slpush(&itp.dirstk, d)
-- 
2.43.0


From a311083040228db11380b4e1cd0a3f312e5ec95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:52 +0000
Subject: [PATCH 192/218] fix: std: blat: truncate the file

---
 lib/std/blat.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/blat.myr b/lib/std/blat.myr
index 46a6e3e..ab9e3c4 100644
--- a/lib/std/blat.myr
+++ b/lib/std/blat.myr
@@ -7,7 +7,7 @@ pkg std =
 ;;
 
 const blat = {path, buf, perm
-	match openmode(path, Ocreat|Owrite, perm)
+	match openmode(path, Ocreat|Owrite|Otrunc, perm)
 	| `Ok fd:
 		var r = fblat(fd, buf)
 		close(fd)
-- 
2.43.0


From 06570b5015493390dfb9b8a9f9838d2d1468d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:52 +0000
Subject: [PATCH 193/218] fix: std: mkpath: report the failure of the last
 mkdir

---
 lib/std/mkpath.myr | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/std/mkpath.myr b/lib/std/mkpath.myr
index 22d1d3d..f6f3edc 100644
--- a/lib/std/mkpath.myr
+++ b/lib/std/mkpath.myr
@@ -19,6 +19,8 @@ const mkpath = {p
 		;;
 	;;
 	st = mkdir(p, 0o755)
-
-	-> Enone
+	if st == Eexist && fisdir(p)
+		-> Enone
+	;;
+	-> st
 }
-- 
2.43.0


From e03a6c6a6bae7ea6681d914c24136542c4081e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:52 +0000
Subject: [PATCH 194/218] fix: std: writeall: report the bytes written before
 an error

---
 lib/std/writeall.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/writeall.myr b/lib/std/writeall.myr
index 367ed33..65b9552 100644
--- a/lib/std/writeall.myr
+++ b/lib/std/writeall.myr
@@ -14,8 +14,8 @@ const writeall = {fd, src
 	sz = src.len
 	while src.len != 0
 		match std.write(fd, src)
-		| `Err e:	-> `std.Err (sz, e)
-		| `Ok 0:	-> `std.Err (sz, 0)
+		| `Err e:	-> `std.Err (sz - src.len, e)
+		| `Ok 0:	-> `std.Err (sz - src.len, 0)
 		| `Ok n:	src = src[n:]
 		;;
 	;;
-- 
2.43.0


From 750771a853af4941c205e1cbd0f686edfeecdd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 195/218] fix: std: mktemp: never open an existing file

---
 lib/std/mktemp.myr         | 2 +-
 lib/std/syswrap+plan9.myr  | 1 +
 lib/std/syswrap+posixy.myr | 1 +
 lib/sys/sys+osx-x64.myr    | 1 +
 4 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/std/mktemp.myr b/lib/std/mktemp.myr
index f5e8661..f5305fb 100644
--- a/lib/std/mktemp.myr
+++ b/lib/std/mktemp.myr
@@ -39,7 +39,7 @@ const mktempat = {tmpdir, base, opt, mode
 
 	for var i = 0; i < Retries; i++
 		path = randpath(tmpdir, base)
-		match std.openmode(path, opt | Ocreat, mode)
+		match std.openmode(path, opt | Ocreat | Oexcl, mode)
 		| `Err e:
 			if e != Eexist
 				std.slfree(path)
diff --git a/lib/std/syswrap+plan9.myr b/lib/std/syswrap+plan9.myr
index 92d8beb..03b6907 100644
--- a/lib/std/syswrap+plan9.myr
+++ b/lib/std/syswrap+plan9.myr
@@ -31,6 +31,7 @@ pkg std =
 	const Owrite  	: fdopt = (sys.Owrite	: fdopt)
 	const Ordwr    	: fdopt = (sys.Ordwr	: fdopt)
 	const Otrunc   	: fdopt = (sys.Otrunc	: fdopt)
+	const Oexcl   	: fdopt = (sys.Oexcl	: fdopt)
 	const Ocexec	: fdopt = (sys.Ocexec	: fdopt)
 	const Ocreat   	: fdopt = 0x1000000	/* emulated by redirecting to creat(). */
 	const Oappend  	: fdopt = 0x2000000	/* emulated by seeking to EOF */
diff --git a/lib/std/syswrap+posixy.myr b/lib/std/syswrap+posixy.myr
index de62bef..0dd79ad 100644
--- a/lib/std/syswrap+posixy.myr
+++ b/lib/std/syswrap+posixy.myr
@@ -30,6 +30,7 @@ pkg std =
 	const Ordwr    	: fdopt = (sys.Ordwr	: fdopt)
 	const Ocreat   	: fdopt = (sys.Ocreat	: fdopt)
 	const Otrunc   	: fdopt = (sys.Otrunc	: fdopt)
+	const Oexcl   	: fdopt = (sys.Oexcl	: fdopt)
 	const Ocexec	: fdopt = (sys.Ocloexec	: fdopt)
 	const Oappend	: fdopt = (sys.Oappend	: fdopt)
 	const Odir	: fdopt = (sys.Odir	: fdopt)
diff --git a/lib/sys/sys+osx-x64.myr b/lib/sys/sys+osx-x64.myr
index a926156..830b1e1 100644
--- a/lib/sys/sys+osx-x64.myr
+++ b/lib/sys/sys+osx-x64.myr
@@ -241,6 +241,7 @@ pkg sys =
 	const Ocreat   	: fdopt = 0x200
 	const Onofollow	: fdopt = 0x100
 	const Otrunc   	: fdopt = 0x400
+	const Oexcl   	: fdopt = 0x800
 	const Odir	: fdopt = 0x100000
 	const Ocloexec	: fdopt = 0x1000000
 
-- 
2.43.0


From 3e12bdec6319d9c9d85dce094896f6e4424ea127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 196/218] fix: std: remove: unlink symbolic links to
 directories

---
 lib/std/syswrap+posixy.myr | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/std/syswrap+posixy.myr b/lib/std/syswrap+posixy.myr
index 0dd79ad..454b3b4 100644
--- a/lib/std/syswrap+posixy.myr
+++ b/lib/std/syswrap+posixy.myr
@@ -108,7 +108,10 @@ const nopipe = {
 const mkdir	= {path, mode;	-> (sys.mkdir(path, mode) : errno)}
 const chdir	= {path;	-> sys.chdir(path) == 0}
 const remove	= {path;	
-	if std.fisdir(path)
+	var sb
+
+	/* a link to a directory is not a directory */
+	if sys.lstat(path, &sb) >= 0 && sb.mode & sys.Sifmt == sys.Sifdir
 		-> sys.rmdir(sys.cstring(path)) == 0
 	else
 		-> sys.unlink(path) == 0
-- 
2.43.0


From a85105e2171e32b44d8f0817558b4564d71468ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 197/218] fix: std: fisdir, fisreg: compare the file type

---
 lib/std/syswrap+posixy.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/syswrap+posixy.myr b/lib/std/syswrap+posixy.myr
index 454b3b4..98a82ac 100644
--- a/lib/std/syswrap+posixy.myr
+++ b/lib/std/syswrap+posixy.myr
@@ -162,7 +162,7 @@ const fisdir = {path
 	var sb
 
 	if sys.stat(path, &sb) >= 0
-		-> sb.mode & sys.Sifdir != 0
+		-> sb.mode & sys.Sifmt == sys.Sifdir
 	else
 		-> false
 	;;
@@ -172,7 +172,7 @@ const fisreg = {path
 	var sb
 
 	if sys.stat(path, &sb) >= 0
-		-> sb.mode & sys.Sifreg != 0
+		-> sb.mode & sys.Sifmt == sys.Sifreg
 	else
 		-> false
 	;;
-- 
2.43.0


From 1747dcd52335807a2150d71adab7e493cba1bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 198/218] fix: std: fmtime: answer in microseconds

---
 lib/std/syswrap+posixy.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/syswrap+posixy.myr b/lib/std/syswrap+posixy.myr
index 98a82ac..cd15f29 100644
--- a/lib/std/syswrap+posixy.myr
+++ b/lib/std/syswrap+posixy.myr
@@ -186,7 +186,7 @@ const fmtime = {path
 	if r >= 0
 		sec = (sb.mtime.sec : time)
 		nsec = (sb.mtime.nsec : time)
-		-> `Ok (sec*1000 + nsec/1_000_000)
+		-> `Ok (sec*1_000_000 + nsec/1000)
 	else
 		-> check(r)
 	;;
-- 
2.43.0


From 6baf9014ba6a6259958ea9687a2e3137172b1d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 199/218] fix: 6: save and restore %rbx

---
 6/isel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/6/isel.c b/6/isel.c
index c8fb6da..5d23639 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -1239,7 +1239,7 @@ isel(Isel *s, Node *n)
 /* %rax is for int returns, %xmm0d is for floating returns */
 Reg
 savedregs[] = {
-	Rr12, Rr13, Rr14, Rr15,
+	Rrbx, Rr12, Rr13, Rr14, Rr15,
 	Rnone
 };
 
-- 
2.43.0


From fd3488da8e970f7ecf37800afbb884cf94acf63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 200/218] fix: sys: execve: room for the end of the environment

---
 lib/sys/sys+freebsd-x64.myr     | 2 +-
 lib/sys/sys+linux-x64.myr       | 2 +-
 lib/sys/sys+netbsd-x64.myr      | 2 +-
 lib/sys/sys+openbsd-x64.myr     | 2 +-
 lib/sys/sys+openbsd:6.2-x64.myr | 2 +-
 lib/sys/sys+openbsd:6.3-x64.myr | 2 +-
 lib/sys/sys+openbsd:6.4-x64.myr | 2 +-
 lib/sys/sys+openbsd:7.0-x64.myr | 2 +-
 lib/sys/sys+osx-x64.myr         | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/sys/sys+freebsd-x64.myr b/lib/sys/sys+freebsd-x64.myr
index 73821b4..865944b 100644
--- a/lib/sys/sys+freebsd-x64.myr
+++ b/lib/sys/sys+freebsd-x64.myr
@@ -1581,7 +1581,7 @@ pkg sys =
 		 since we want to stack allocate... 
 		*/
 		p = alloca((env.len + 1)*sizeof(byte#))
-		cenv = ((p : byte##))[:env.len]
+		cenv = ((p : byte##))[:env.len + 1]
 		for i = 0; i < env.len; i++
 			cenv[i] = cstring(env[i])
 		;;
diff --git a/lib/sys/sys+linux-x64.myr b/lib/sys/sys+linux-x64.myr
index 809b7ba..b550e8f 100644
--- a/lib/sys/sys+linux-x64.myr
+++ b/lib/sys/sys+linux-x64.myr
@@ -1653,7 +1653,7 @@ pkg sys =
 		 since we want to stack allocate...
 		*/
 		ep = alloca((env.len + 1)*sizeof(byte#))
-		cenv = (ep : byte##)[:env.len]
+		cenv = (ep : byte##)[:env.len + 1]
 		for i = 0; i < env.len; i++
 			cenv[i] = cstring(env[i])
 		;;
diff --git a/lib/sys/sys+netbsd-x64.myr b/lib/sys/sys+netbsd-x64.myr
index 5fd3bb0..f22c330 100644
--- a/lib/sys/sys+netbsd-x64.myr
+++ b/lib/sys/sys+netbsd-x64.myr
@@ -982,7 +982,7 @@ const execve	= {cmd, args, env
 	 since we want to stack allocate... 
 	*/
 	p = alloca((env.len + 1)*sizeof(byte#))
-	cenv = ((p : byte##))[:env.len]
+	cenv = ((p : byte##))[:env.len + 1]
 	for i = 0; i < env.len; i++
 		cenv[i] = cstring(env[i])
 	;;
diff --git a/lib/sys/sys+openbsd-x64.myr b/lib/sys/sys+openbsd-x64.myr
index d840608..237bc08 100644
--- a/lib/sys/sys+openbsd-x64.myr
+++ b/lib/sys/sys+openbsd-x64.myr
@@ -686,7 +686,7 @@ const execve	= {cmd, args, env
 	 since we want to stack allocate... 
 	*/
 	p = alloca((env.len + 1)*sizeof(byte#))
-	cenv = (p : byte##)[:env.len]
+	cenv = (p : byte##)[:env.len + 1]
 	for i = 0; i < env.len; i++
 		cenv[i] = cstring(env[i])
 	;;
diff --git a/lib/sys/sys+openbsd:6.2-x64.myr b/lib/sys/sys+openbsd:6.2-x64.myr
index d89b702..924160b 100644
--- a/lib/sys/sys+openbsd:6.2-x64.myr
+++ b/lib/sys/sys+openbsd:6.2-x64.myr
@@ -1109,7 +1109,7 @@ pkg sys =
 		 since we want to stack allocate... 
 		*/
 		p = alloca((env.len + 1)*sizeof(byte#))
-		cenv = (p : byte##)[:env.len]
+		cenv = (p : byte##)[:env.len + 1]
 		for i = 0; i < env.len; i++
 			cenv[i] = cstring(env[i])
 		;;
diff --git a/lib/sys/sys+openbsd:6.3-x64.myr b/lib/sys/sys+openbsd:6.3-x64.myr
index ac7170b..eccaed3 100644
--- a/lib/sys/sys+openbsd:6.3-x64.myr
+++ b/lib/sys/sys+openbsd:6.3-x64.myr
@@ -1108,7 +1108,7 @@ pkg sys =
 		 since we want to stack allocate... 
 		*/
 		p = alloca((env.len + 1)*sizeof(byte#))
-		cenv = (p : byte##)[:env.len]
+		cenv = (p : byte##)[:env.len + 1]
 		for i = 0; i < env.len; i++
 			cenv[i] = cstring(env[i])
 		;;
diff --git a/lib/sys/sys+openbsd:6.4-x64.myr b/lib/sys/sys+openbsd:6.4-x64.myr
index d32d031..dea7a43 100644
--- a/lib/sys/sys+openbsd:6.4-x64.myr
+++ b/lib/sys/sys+openbsd:6.4-x64.myr
@@ -1110,7 +1110,7 @@ pkg sys =
 		 since we want to stack allocate... 
 		*/
 		p = alloca((env.len + 1)*sizeof(byte#))
-		cenv = (p : byte##)[:env.len]
+		cenv = (p : byte##)[:env.len + 1]
 		for i = 0; i < env.len; i++
 			cenv[i] = cstring(env[i])
 		;;
diff --git a/lib/sys/sys+openbsd:7.0-x64.myr b/lib/sys/sys+openbsd:7.0-x64.myr
index 3b24add..9985bf4 100644
--- a/lib/sys/sys+openbsd:7.0-x64.myr
+++ b/lib/sys/sys+openbsd:7.0-x64.myr
@@ -1095,7 +1095,7 @@ pkg sys =
 		 since we want to stack allocate... 
 		*/
 		p = alloca((env.len + 1)*sizeof(byte#))
-		cenv = (p : byte##)[:env.len]
+		cenv = (p : byte##)[:env.len + 1]
 		for i = 0; i < env.len; i++
 			cenv[i] = cstring(env[i])
 		;;
diff --git a/lib/sys/sys+osx-x64.myr b/lib/sys/sys+osx-x64.myr
index 830b1e1..176f55e 100644
--- a/lib/sys/sys+osx-x64.myr
+++ b/lib/sys/sys+osx-x64.myr
@@ -938,7 +938,7 @@ const execve	= {cmd, args, env
 	 since we want to stack allocate...
 	*/
 	p = alloca((env.len + 1)*sizeof(byte#))
-	cenv = (p : byte##)[:env.len]
+	cenv = (p : byte##)[:env.len + 1]
 	for i = 0; i < env.len; i++
 		cenv[i] = cstring(env[i])
 	;;
-- 
2.43.0


From 89bf6ffe2b5997c4591ae094e45b7c6376e5f77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 201/218] fix: std: getenv, setenv: tolerate entries without
 '='

---
 lib/std/env+posixy.myr | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/std/env+posixy.myr b/lib/std/env+posixy.myr
index 82ad4ff..2da940d 100644
--- a/lib/std/env+posixy.myr
+++ b/lib/std/env+posixy.myr
@@ -36,7 +36,7 @@ const getenv = {name
 		if envp != Zenvp
 			env = cstrconvp(envp)
 			n = min(name.len, env.len)
-			if eq(name, env[:n]) && eq(env[n:n+1], "=")
+			if eq(name, env[:n]) && n < env.len && env[n] == ('=' : byte)
 				-> `Some env[n+1:]
 			;;
 		;;
@@ -65,8 +65,8 @@ const setenv = {name, val
 		;;
 
 		env = cstrconvp(envp)
-		n = min(name.len, env.len - 1)
-		if eq(name, env[:n]) && env[n] == ('=' : byte)
+		n = min(name.len, env.len)
+		if eq(name, env[:n]) && n < env.len && env[n] == ('=' : byte)
 			found = true
 			break
 		;;
-- 
2.43.0


From ec7171c791f27620d6b7fc5421e39be045031286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:38 +0000
Subject: [PATCH 202/218] fix: std: execvp: ignore a trailing empty element,
 longer paths, report the error

---
 lib/std/execvp.myr | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/lib/std/execvp.myr b/lib/std/execvp.myr
index 8c1bffe..ed716ca 100644
--- a/lib/std/execvp.myr
+++ b/lib/std/execvp.myr
@@ -12,8 +12,10 @@ pkg std =
 ;;
 
 const execvp = {cmd, args
-	var i, j, paths, binpath
-	var buf : byte[512]
+	var i, j, paths, binpath, e, err
+	var buf : byte[4096]
+
+	err = Enoent
 
 	match strfind(cmd, "/")
 	| `Some _:
@@ -24,16 +26,24 @@ const execvp = {cmd, args
 		paths = std.getenvv("PATH", "/usr/local/bin:/bin:/usr/bin")
 		while j < paths.len
 			(i, j) = nextpath(paths, j)
+			if i == j
+				break
+			;;
 			binpath = mkpath(buf[:], paths[i:j], cmd)
-			execv(binpath, args)
+			e = execv(binpath, args)
+			if e != Enoent
+				err = e
+			;;
 		;;
 	;;
-	-> -1
+	-> err
 }
 
 const execvpe = {cmd, args, env
-	var i, j, paths, binpath
-	var buf : byte[512]
+	var i, j, paths, binpath, e, err
+	var buf : byte[4096]
+
+	err = Enoent
 
 	match strfind(cmd, "/")
 	| `Some _:
@@ -44,11 +54,17 @@ const execvpe = {cmd, args, env
 		paths = std.getenvv("PATH", "/usr/local/bin:/bin:/usr/bin")
 		while j < paths.len
 			(i, j) = nextpath(paths, j)
+			if i == j
+				break
+			;;
 			binpath = mkpath(buf[:], paths[i:j], cmd)
-			execve(binpath, args, env)
+			e = execve(binpath, args, env)
+			if e != Enoent
+				err = e
+			;;
 		;;
 	;;
-	-> -1
+	-> err
 }
 
 const nextpath = {p, start
-- 
2.43.0


From 773f078c28be379e83d687f6a3daff278e945b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:38 +0000
Subject: [PATCH 203/218] fix: std: spork: keep the child's standard
 descriptors, never return in the child

---
 lib/std/spork.myr | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/lib/std/spork.myr b/lib/std/spork.myr
index 28707c8..f9a7421 100644
--- a/lib/std/spork.myr
+++ b/lib/std/spork.myr
@@ -142,33 +142,26 @@ const sporkfd = {cmd, dir, infds, outfds, errfds
 		/* stdin/stdout for our communication. */
 		match dup2(infds[0], 0)
 		| `Ok _:	/* nothing */
-		| `Err e:	-> `Err e
+		| `Err e:	suicide()
 		;;
 		match dup2(outfds[1], 1)
 		| `Ok _:	/* nothing */
-		| `Err e:	-> `Err e
+		| `Err e:	suicide()
 		;;
 		match dup2(errfds[1], 2)
 		| `Ok _:	/* nothing */
-		| `Err e:	-> `Err e
+		| `Err e:	suicide()
 		;;
 
-		/* close the fds we duped */
-		if infds[0] != 0
-			close(infds[0])
-		;;
-		if outfds[1] != 1
-			close(outfds[1])
-		;;
-		if errfds[1] != 2
-			close(errfds[1])
+		/* 
+		 close the pipes, unless they were opened as,
+		 and replaced by, our standard descriptors
+		*/
+		for fd : [infds[0], infds[1], outfds[0], outfds[1], errfds[0], errfds[1]]
+			if fd > 2
+				close(fd)
+			;;
 		;;
-
-		/* close the unused ends */
-		close(infds[1])
-		close(outfds[0])
-		close(errfds[0])
-
 		if dir.len != 0 && !chdir(dir)
 			std.die("could not chdir")
 		;;
-- 
2.43.0


From 4ab7de015e78ebed218bb4e997d7c0e2c4d9f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:56 +0000
Subject: [PATCH 204/218] fix: std: parse exactly the textual IP addresses

---
 lib/std/ipparse.myr | 178 ++++++++++++++++++++++----------------------
 1 file changed, 91 insertions(+), 87 deletions(-)

diff --git a/lib/std/ipparse.myr b/lib/std/ipparse.myr
index f8bba34..9173185 100644
--- a/lib/std/ipparse.myr
+++ b/lib/std/ipparse.myr
@@ -34,117 +34,121 @@ const ipparse = {ip
 }
 
 const ip4parse = {ip
-	var a, b, c, d
-	var ok
-
-	(a, ip, ok) = num(ip, 0, 255, 10, '.', true)
-	(ip, ok) = delim(ip, '.', ok)
-	(b, ip, ok) = num(ip, 0, 255, 10, '.', ok)
-	(ip, ok) = delim(ip, '.', ok)
-	(c, ip, ok) = num(ip, 0, 255, 10, '.', ok)
-	(ip, ok) = delim(ip, '.', ok)
-	(d, ip, ok) = num(ip, 0, 255, 10, '.', ok)
-
-	if ok && ip.len == 0
-		-> `Some (`Ipv4 [a, b, c, d])
+	var addr : byte[4]
+
+	if quad(addr[:], ip)
+		-> `Some (`Ipv4 addr)
 	else
 		-> `None
 	;;
 }
 
-const ipv6seg = 8
+/* "1.2.3.4": exactly four decimal numbers up to 255 */
+const quad = {dst : byte[:], ip : byte[:]
+	var i, v, ndig
+
+	i = 0
+	for var n = 0; n < 4; n++
+		if n > 0
+			if i == ip.len || ip[i] != ('.' : byte)
+				-> false
+			;;
+			i++
+		;;
+		v = 0
+		ndig = 0
+		while i < ip.len && ndig < 3 && ip[i] >= ('0' : byte) && ip[i] <= ('9' : byte)
+			v = 10*v + (ip[i] - ('0' : byte) : int)
+			i++
+			ndig++
+		;;
+		if ndig == 0 || v > 255
+			-> false
+		;;
+		dst[n] = (v : byte)
+	;;
+	-> i == ip.len
+}
 
+const Ipv6sz = 16
 const ip6parse = {ip
 	var val : byte[16]
-	var expand
-	var v, ok
-	var nseg, segsplit
-
-	ok = true
-	expand = false
-	segsplit = 0
-
-	if ip.len > 2 && eq(ip[:2], "::")
-		expand = true
+	var i, n, split, v, ndig
+
+	slfill(val[:], 0)
+	i = 0
+	n = 0		/* bytes filled in so far */
+	split = -1	/* where a '::' has to be expanded */
+	if hasprefix(ip, "::")
+		split = 0
+		i = 2
 	;;
+	while i < ip.len
+		(v, ndig) = hexseg(ip[i:])
+		if i + ndig < ip.len && ip[i + ndig] == ('.' : byte)
+			/* the last 4 bytes may be written as an ipv4 address */
+			if n + 4 > Ipv6sz || !quad(val[n:n+4], ip[i:])
+				-> `None
+			;;
+			n += 4
+			break
+		;;
 
-	nseg = 0
-	for var i = 0; ip.len > 0 && ok; i++
-		/* parse 'num' segment */
-		(v, ip, ok) = num(ip, 0, 65536, 16, ':', ok)
-
-		/* pack it into the bytes */
-		val[i*2] = ((v & 0xff00) >> 8 : byte)
-		val[i*2 + 1] = (v & 0xff : byte)
-
-		nseg++
-		if ip.len == 0 || nseg == ipv6seg
+		if ndig == 0 || n == Ipv6sz
+			-> `None
+		;;
+		val[n] = (v >> 8 : byte)
+		val[n + 1] = (v & 0xff : byte)
+		n += 2
+		i += ndig
+		if i == ip.len
 			break
 		;;
 
-		(ip, ok) = delim(ip, ':', ok)
-		/* only one '::' allowed once */
-		if ip.len > 0 && ip[0] == (':' : byte) && !expand
-			(ip, ok) = delim(ip, ':', ok)
-			expand = true
-			segsplit = nseg
+		/* there has to be something after a ':' */
+		if ip[i] != (':' : byte) || i + 1 == ip.len
+			-> `None
+		;;
+		i++
+		if ip[i] == (':' : byte)
+			/* only one '::' allowed */
+			if split >= 0
+				-> `None
+			;;
+			split = n
+			i++
 		;;
 	;;
-
-	if ok && ip.len == 0
-		if expand
-			expandsplit(val[:], nseg, segsplit)
-		elif nseg != ipv6seg
+	if split >= 0
+		if n == Ipv6sz
 			-> `None
 		;;
-		-> `Some `Ipv6 val
-	else
+		expandsplit(val[:], n, split)
+	elif n != Ipv6sz
 		-> `None
 	;;
+	-> `Some `Ipv6 val
 }
 
-/* take "a:b::c:d" and expand it to "a:b:0:0:...:0:c:d" */
-const expandsplit = {ip, nseg, segsplit
-	var head, tail
-	var split, middle
-
-	split = segsplit * 2
-	middle = (ipv6seg - nseg) * 2
-	head = ip[:split]
-	tail = ip[split : ip.len - middle]
-
-	std.slcp(ip[ip.len - tail.len:], tail)
-	std.slfill(ip[head.len : ip.len - tail.len], 0)
-}
+/* up to 4 hex digits: their value and number */
+const hexseg = {ip : byte[:]
+	var v, n
 
-const delim = {ip, sep, ok
-	if ip.len > 0 && ip[0] == (sep : byte)
-		-> (ip[1:], ok)
-	else
-		-> ("", false)
+	v = 0
+	for n = 0; n < ip.len && n < 4; n++
+		match charval((ip[n] : char), 16)
+		| -1:	break
+		| d:	v = 16*v + d
+		;;
 	;;
+	-> (v, n)
 }
 
-generic num = {ip, lo, hi, base, sep, ok -> (@a, byte[:], bool) :: numeric,integral @a
-	var len
-
-	if !ok
-		-> (0, "", false)
-	;;
+/* take "a:b::c:d" and expand it to "a:b:0:0:...:0:c:d" */
+const expandsplit = {ip, len, split
+	var tail
 
-	for len = 0; len < ip.len; len++
-		if ip[len] == (sep : byte)
-			break
-		;;
-	;;
-	match intparsebase(ip[:len], base)
-	| `std.Some v:
-		if v < lo || v > hi
-			-> (0, "", false)
-		;;
-		-> ((v : @a), ip[len:], true)
-	| `std.None:
-		-> (0, "", false)
-	;;
+	tail = len - split
+	slcp(ip[ip.len - tail:], ip[split:len])
+	slfill(ip[split : ip.len - tail], 0)
 }
-
-- 
2.43.0


From eb9984565fa9ee9071f6776a16143bbc41e3aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:56 +0000
Subject: [PATCH 205/218] fix: std: refuse port numbers out of range

---
 lib/std/dialparse+posixy.myr | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/std/dialparse+posixy.myr b/lib/std/dialparse+posixy.myr
index 9dd36bd..0da8d3f 100644
--- a/lib/std/dialparse+posixy.myr
+++ b/lib/std/dialparse+posixy.myr
@@ -19,8 +19,14 @@ pkg std =
 ;;
 
 const parseport = {port
-	match intparse(port)
-	| `Some n:	-> `Some n
+	var p : option(int64)
+
+	p = intparse(port)
+	match p
+	| `Some n:
+		if n >= 0 && n <= 65535
+			-> `Some (n : uint16)
+		;;
 	| `None:
 		/* a small number of hardcoded ports */
 		if eq(port, "http")
-- 
2.43.0


From e9153a9a555bbe3629589197044bdca9f5bba68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:22 +0000
Subject: [PATCH 206/218] fix: std: free everything a formatted float needed

---
 lib/std/fltfmt.myr | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lib/std/fltfmt.myr b/lib/std/fltfmt.myr
index a0c5a7d..1b0e92e 100644
--- a/lib/std/fltfmt.myr
+++ b/lib/std/fltfmt.myr
@@ -49,7 +49,8 @@ const flt64bfmt = {sb, opts, val
 	exp = max(exp, 1 - Dblbias)
 	dragon4(valsb, false, mant, exp - 52, 53, opts.mode, -opts.cutoff, opts.scientific)
 
-	-> blobfmt(sb, sbfin(valsb), opts, isneg)
+	blobfmt(sb, sbpeek(valsb), opts, isneg)
+	sbfree(valsb)
 }
 
 const flt32bfmt = {sb, opts, val
@@ -70,7 +71,8 @@ const flt32bfmt = {sb, opts, val
 	exp = (max((exp : int64), 1 - Fltbias) : int32)
 	dragon4(valsb, false, (mant : uint64), (exp - 23 : int64), 24, opts.mode, -opts.cutoff, opts.scientific)
 
-	-> blobfmt(sb, sbfin(valsb), opts, isneg)
+	blobfmt(sb, sbpeek(valsb), opts, isneg)
+	sbfree(valsb)
 }
 
 const nanfmt = {sb, opts
@@ -137,7 +139,7 @@ const dragon4 = {sb, isneg, f, e, p, mode, cutoff, scientific
 	var udig
 	var mm, mp	/* margins above and below */
 	var roundup
-	var low, high
+	var low, high, done
 	var k
 	var tenpower : int64 = 0
 	var a, i
@@ -158,7 +160,6 @@ const dragon4 = {sb, isneg, f, e, p, mode, cutoff, scientific
 	roundup = false
 	low = false
 	high = false
-	u = mkbigint(0)
 	r = bigshli(mkbigint(f), max(e, 0))
 	s = bigshli(mkbigint(1), max(0, -e))
 	mm = bigshli(mkbigint(1), max(e, 0))
@@ -256,9 +257,10 @@ const dragon4 = {sb, isneg, f, e, p, mode, cutoff, scientific
 
 		u = bigdup(s)
 		bigshli(u, 1)
-		if fits(t, u, roundup)
-			bigfree(t)
-			bigfree(u)
+		done = fits(t, u, roundup)
+		bigfree(t)
+		bigfree(u)
+		if done
 			break
 		;;
 	;;
@@ -275,11 +277,12 @@ const dragon4 = {sb, isneg, f, e, p, mode, cutoff, scientific
 			sbputs(sb, "0")
 		;;
 	;;
+	u = mkbigint(0)
 	while true
 		k--
 
 		bigmuli(r, 10)
-		u = bigdup(r);
+		bigassign(u, r)
 		bigdiv(u, s)
 
 		bigmod(r, s)
@@ -315,7 +318,6 @@ const dragon4 = {sb, isneg, f, e, p, mode, cutoff, scientific
 			break
 		;;
 		format(sb, lowdig(u), k)
-		bigfree(u)
 	;;
 
 	/* format the last digit */
-- 
2.43.0


From 744d9eaa0585770e559143ca54c478bb59a78dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:22 +0000
Subject: [PATCH 207/218] fix: std: free the intermediate paths of pathabs

---
 lib/std/pathjoin.myr | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/std/pathjoin.myr b/lib/std/pathjoin.myr
index 18f2414..8ab6ae3 100644
--- a/lib/std/pathjoin.myr
+++ b/lib/std/pathjoin.myr
@@ -108,9 +108,14 @@ const pathnorm = {p
 }
 
 const pathabs = {p
+	var cwd, abs
+
 	if hasprefix(p, "/")
 		-> pathnorm(p)
 	else
-		-> pathnorm(pathjoin([getcwd(), p][:]))
+		cwd = getcwd()
+		abs = pathjoin([cwd, p][:])
+		slfree(cwd)
+		-> abs
 	;;
 }
-- 
2.43.0


From f83e8eef775fbba1381f4a417761e307141b277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:22 +0000
Subject: [PATCH 208/218] fix: json: free the key of a broken member

---
 lib/json/parse.myr | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/json/parse.myr b/lib/json/parse.myr
index f0d9386..ce2833c 100644
--- a/lib/json/parse.myr
+++ b/lib/json/parse.myr
@@ -149,7 +149,9 @@ const member = {p
 	takespace(p)
 	match takec(p)
 	| ':':	/* nothing */
-	| chr:	-> `std.Err [.e=`Junk chr, .line=p.line, .off=p.off]
+	| chr:
+		std.slfree(str)
+		-> `std.Err [.e=`Junk chr, .line=p.line, .off=p.off]
 	;;
 
 	takespace(p)
-- 
2.43.0


From 1d16e1a7037bd149df7531119f868ff3b0a8e643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:22 +0000
Subject: [PATCH 209/218] fix: inifile: free lines and parser when loading

---
 lib/inifile/parse.myr | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/inifile/parse.myr b/lib/inifile/parse.myr
index 68c54e9..0f5dfc1 100644
--- a/lib/inifile/parse.myr
+++ b/lib/inifile/parse.myr
@@ -49,7 +49,7 @@ const loadf = {fd
 
 const loadbio = {f
 	var p : parser#
-	var ini
+	var ini, ok, err
 
 	ini = std.mk([
 		.elts = std.mkht()
@@ -64,7 +64,9 @@ const loadbio = {f
 		| `std.Err `bio.Eof:
 			break
 		| `std.Ok ln:
-			if !parseline(p, ini, ln)
+			ok = parseline(p, ini, ln)
+			std.slfree(ln)
+			if !ok
 				break
 			;;
 		| `std.Err e:
@@ -73,9 +75,11 @@ const loadbio = {f
 		;;
 		p.line++
 	;;
-	match p.err
+	err = p.err
+	std.slfree(p.sect)
+	std.free(p)
+	match err
 	| `std.None:
-		std.slfree(p.sect)
 		-> `std.Ok ini 
 	| `std.Some e:
 		free(ini)
-- 
2.43.0


From 2b28c89acf60f2e41fbaa16f567f16e5f085a8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:22 +0000
Subject: [PATCH 210/218] fix: regex: free cached threads, and everything when
 compiling fails

---
 lib/regex/compile.myr | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index d949ace..c4260bc 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -15,6 +15,8 @@ pkg regex =
 	impl disposable ast#
 ;;
 
+const Zthr = (0 : rethread#)
+
 type parseresult = union
 	`Some ast#
 	`None
@@ -43,14 +45,15 @@ const parse = {pat
 
 	re = std.mk([.pat = pat, .nmatch = 1])
 	match regexparse(re)
-	| `None:	-> `std.Err `Incomplete
-	| `Err f:	-> `std.Err f
+	| `None:
+		std.free(re)
+		-> `std.Err `Incomplete
+	| `Err f:
+		std.free(re)
+		-> `std.Err f
 	| `Some t:
-		if re.pat.len != re.idx
-			-> `std.Err `Incomplete
-		else
-			-> `std.Ok t
-		;;
+		std.free(re)
+		-> `std.Ok t
 	;;
 }
 
@@ -72,8 +75,12 @@ const dbgcompile = {pat, trace
 /* compiles a pattern into an allocated regex */
 const regexcompile = {re, id
 	match regexparse(re)
-	| `None:	-> `std.Err (`Incomplete)
-	| `Err f:	-> `std.Err f
+	| `None:
+		free(re)
+		-> `std.Err (`Incomplete)
+	| `Err f:
+		free(re)
+		-> `std.Err f
 	| `Some t:
 		/*
 		we can bail out of parsing early if we get 
@@ -81,6 +88,7 @@ const regexcompile = {re, id
 		*/
 		if re.pat.len != re.idx
 			astfree(t)
+			free(re)
 			-> `std.Err (`Incomplete)
 		;;
 		dump(re, t, 0)
@@ -119,8 +127,13 @@ const convert = {prog
 }
 
 const free = {re
-	/* all the threads should be dead,
-	 so we shouldn't have to free any*/
+	var next
+
+	/* a match that failed leaves its threads for the next one */
+	for var thr = re.free; thr != Zthr; thr = next
+		next = thr.next
+		std.free(thr)
+	;;
 	std.slfree(re.prog)
 	std.slfree(re.code)
 	if re.debug
@@ -553,6 +566,7 @@ const altexpr = {re
 				astfree(ret)
 				-> `Err (`Incomplete)
 			| `Err f:
+				astfree(ret)
 				-> `Err f
 			;;
 		;;
@@ -573,7 +587,9 @@ const catexpr = {re
 		match catexpr(re)
 		| `Some rhs:
 			ret = mk(re, `Cat (t, rhs), idx)
-		| `Err f:	-> `Err f
+		| `Err f:
+			astfree(t)
+			-> `Err f
 		| `None:	/* nothing */
 		;;
 	| other:
@@ -649,6 +665,7 @@ const baseexpr = {re
 					-> `Some mk(re, `Cap (m, s), idx)
 				;;
 			else
+				astfree(s)
 				-> `Err `Unbalanced '('
 			;;
 		| `None:	-> `Err `Emptyparen
-- 
2.43.0


From a16deb7da6b552647f0267006d9efa0493c2a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:22 +0000
Subject: [PATCH 211/218] fix: regex: free the buffer of sub when nothing
 matches

---
 lib/regex/interp.myr | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/regex/interp.myr b/lib/regex/interp.myr
index 697b826..cac8285 100644
--- a/lib/regex/interp.myr
+++ b/lib/regex/interp.myr
@@ -68,6 +68,7 @@ const sub = {re, str, subst
 	if sbsub(sb, re, str, subst)
 		-> `std.Some std.sbfin(sb)
 	;;
+	std.sbfree(sb)
 	-> `std.None
 }
 
-- 
2.43.0


From b2c0bb9684f1c17471681aaca00d9864bb69d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:47 +0000
Subject: [PATCH 212/218] fix: mbld: 'ldscript' sets the linker script, not the
 runtime

---
 mbld/parse.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbld/parse.myr b/mbld/parse.myr
index cf7eb84..364ceda 100644
--- a/mbld/parse.myr
+++ b/mbld/parse.myr
@@ -204,7 +204,7 @@ const target = {b, p
 	| `std.Some "libdeps":	incpath(b, p, &p.libdeps, "libdeps")
 	| `std.Some "testdeps":	incpath(b, p, &p.tstdeps, "testdeps")
 	| `std.Some "runtime":	p.runtime = expectword(b, p, "runtime")
-	| `std.Some "ldscript":	p.runtime = expectword(b, p, "ldscript")
+	| `std.Some "ldscript":	p.ldscript = expectword(b, p, "ldscript")
 	| `std.Some "noinst":	p.install = false
 	/* no word */
 	| `std.Some targtype:	failparse(p, "unknown keyword {}\n", targtype)
-- 
2.43.0


From 5ecf928f46c4c23a2659beb7cb9cd239bc6f5dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:47 +0000
Subject: [PATCH 213/218] fix: mbld: run commands of gen targets in their
 directory

---
 mbld/build.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbld/build.myr b/mbld/build.myr
index 0725aa2..d168e54 100644
--- a/mbld/build.myr
+++ b/mbld/build.myr
@@ -72,7 +72,7 @@ const launch = {b, n
 
 	if stale(b, n)
 		mkout(n)
-		pid = run(n.cmd, "")
+		pid = run(n.cmd, n.wdir)
 		std.htput(b.proc, pid, n)
 	else
 		unblock(b, n)
-- 
2.43.0


From b60cda919b2f86b4872bf51ec1f9ec71f52c4e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:47 +0000
Subject: [PATCH 214/218] fix: mbld: MYR_MUSEFLAGS sets the flags of muse

---
 mbld/opts.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbld/opts.myr b/mbld/opts.myr
index 0ce8fcd..0c45662 100644
--- a/mbld/opts.myr
+++ b/mbld/opts.myr
@@ -105,7 +105,7 @@ const initopts = {
 	| `std.None:	/* ok */
 	;;
 	match std.getenv("MYR_MUSEFLAGS")
-	| `std.Some s:	opt_mcflags = std.strtok(s)
+	| `std.Some s:	opt_museflags = std.strtok(s)
 	| `std.None:	/* ok */
 	;;
 	match std.getenv("MYR_LDFLAGS")
-- 
2.43.0


From 3be7d77926358392824bc4ace4bb9bfc2cbbeca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:47 +0000
Subject: [PATCH 215/218] fix: mbld: data targets without path have none

---
 mbld/parse.myr | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbld/parse.myr b/mbld/parse.myr
index 364ceda..6c1ad42 100644
--- a/mbld/parse.myr
+++ b/mbld/parse.myr
@@ -516,6 +516,7 @@ const datatarget = {b, p, targ
 		failparse(p, "expected ';;' after input list, got {}\n", peekc(p))
 	;;
 
+	path = ""
 	tags = [][:]
 	for elt : attrs
 		match elt
-- 
2.43.0


From ddaf18afe6aaf8cc2130b364e79fefb1f3a3ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:47 +0000
Subject: [PATCH 216/218] fix: mbld: a target without applicable files is an
 error

---
 mbld/deps.myr | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbld/deps.myr b/mbld/deps.myr
index 863285f..36602aa 100644
--- a/mbld/deps.myr
+++ b/mbld/deps.myr
@@ -65,6 +65,9 @@ const myrdeps = {b, name, mt
 	var gu, go
 
 	g = b.deps
+	if mt.inputs.len == 0
+		std.fatal("target {}: none of its files applies to this system\n", name)
+	;;
 	if mt.islib
 		u = std.fmt("lib{}.use", mt.name)
 		o = std.fmt("lib{}.a", mt.name)
-- 
2.43.0


From b2c0259f5d82b752fd06b601b43d148fc3df40ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:47 +0000
Subject: [PATCH 217/218] fix: mbld: ambiguous file selection is an error

---
 mbld/syssel.myr | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/mbld/syssel.myr b/mbld/syssel.myr
index a4d67c1..ce75701 100644
--- a/mbld/syssel.myr
+++ b/mbld/syssel.myr
@@ -11,11 +11,12 @@ pkg bld =
 		targ	: byte[:]
 		_match	: std.htab(byte[:], (int, int))#
 		_best	: std.htab(byte[:], @a)#
+		_tied	: std.htab(byte[:], byte[:])#
 	;;
 
 	generic mksyssel	: (b : build#, f : byte[:], line : int, targ : byte[:] -> syssel(@a)#)
 	generic sysseladd	: (b : build#, syssel : syssel(byte[:])#, file : byte[:] -> void)
-	generic sysseladdlist	: (b : build#, syssel : syssel(@a)#, base : byte[:], attrs : byte[:][:], val : @a -> void)
+	generic sysseladdlist	: (b : build#, syssel : syssel(@a)#, base : byte[:], attrs : byte[:][:], val : @a -> bool)
 	generic sysselfin	: (b : build#, syssel : syssel(@a)# -> @a[:])
 	const addsysattrs	: (sa : build#, tags : byte[:][:] -> void)
 ;;
@@ -29,6 +30,7 @@ generic mksyssel = {b, file, line, targ
 		.targ = targ,
 		._match = std.mkht(),
 		._best = std.mkht(),
+		._tied = std.mkht(),
 	])
 	-> syssel
 }
@@ -54,7 +56,11 @@ generic sysseladd = {b, syssel, f
 	;;
 
 	attrlist = std.strsplit(attrs, "-")
-	sysseladdlist(b, syssel, basename, attrlist, f)
+	if sysseladdlist(b, syssel, basename, attrlist, f)
+		if !std.eq(std.htgetv(syssel._best, basename, f), f)
+			std.htput(syssel._tied, basename, f)
+		;;
+	;;
 	std.slfree(attrlist)
 }
 
@@ -72,13 +78,19 @@ generic sysseladdlist = {b, syssel, base, attrs, val
 		vscore += s
 		nmatch++
 	;;
+	/* true if val matches just as well as the best one so far */
 	match std.htgetv(syssel._match, base, (-1, -1))
 	| (curbest, curscore):
+		if nmatch >= 0 && curbest == nmatch && curscore == vscore
+			-> true
+		;;
 		if curbest < nmatch || (nmatch >= 0 && curbest == nmatch && curscore < vscore)
 			std.htput(syssel._match, base, (nmatch, vscore))
 			std.htput(syssel._best, base, val)
+			std.htdel(syssel._tied, base)
 		;;
 	;;
+	-> false
 }
 
 const tagscore = {b, tag
@@ -136,10 +148,17 @@ generic sysselfin = {b, syssel
 			std.fatal("{}:{}: target {}, no applicable file for '{}'\n", \
 				syssel.file, syssel.line, syssel.targ, k)
 		;;
+		match std.htget(syssel._tied, k)
+		| `std.None:	/* clear winner */
+		| `std.Some f:
+			std.fatal("{}:{}: target {}, ambiguous files for '{}', such as {}\n", \
+				syssel.file, syssel.line, syssel.targ, k, f)
+		;;
 		std.slpush(&ret, std.get(std.htget(syssel._best, k)))
 	;;
 	std.htfree(syssel._match)
 	std.htfree(syssel._best)
+	std.htfree(syssel._tied)
 	-> ret
 }
 
-- 
2.43.0


From 4e7fc2b7624b0f9051849e310403f189ea3f43d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:47 +0000
Subject: [PATCH 218/218] fix: mbld: rebuild what the build files, tags and
 generators changed

---
 mbld/build.myr  |  6 ++++++
 mbld/deps.myr   | 20 ++++++++++++++++++--
 mbld/parse.myr  |  4 ++++
 mbld/syssel.myr |  1 +
 mbld/types.myr  |  3 +++
 5 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/mbld/build.myr b/mbld/build.myr
index d168e54..c3a351b 100644
--- a/mbld/build.myr
+++ b/mbld/build.myr
@@ -53,6 +53,9 @@ const mark = {b, o
 const build = {b, g
 	for n : g.leaves
 		if n.want
+			if n.cmd.len == 0 && !std.fexists(n.lbl)
+				std.fatal("missing file {}\n", n.lbl)
+			;;
 			/* stale() updates the mtime of the leaf node */
 			stale(b, n)
 			unblock(b, n)
@@ -144,6 +147,9 @@ const stale = {b, n
 const mkout = {n
 	for g : n.gen
 		std.mkpath(std.dirname(g))
+		if n.rmout
+			std.remove(g)
+		;;
 	;;
 }
 
diff --git a/mbld/deps.myr b/mbld/deps.myr
index 36602aa..68bd2c2 100644
--- a/mbld/deps.myr
+++ b/mbld/deps.myr
@@ -76,6 +76,7 @@ const myrdeps = {b, name, mt
 
 		gu = node(g, tu)
 		go = node(g, to)
+		go.rmout = true
 		if mt.install
 			go.instdir = config.Libpath
 			gu.instdir = config.Libpath
@@ -127,6 +128,8 @@ const myrdeps = {b, name, mt
 		std.slfree(u)
 	;;
 
+	go.deptime = mt.bldtime
+	gu.deptime = mt.bldtime
 	libs = [][:]
 	ldflags = [][:]
 	dynlibs = [][:]
@@ -146,6 +149,7 @@ const myrdeps = {b, name, mt
 			depends(g, gu, u)
 
 			n = node(g, o)
+			n.deptime = mt.bldtime
 			generates(g, n, o)
 			generates(g, n, u)
 			depends(g, n, p)
@@ -168,6 +172,7 @@ const myrdeps = {b, name, mt
 
 			depends(g, go, o)
 			n = node(g, o)
+			n.deptime = mt.bldtime
 			generates(g, n, o)
 			depends(g, n, p)
 			ascmd(b, n, mt, o, p)
@@ -179,6 +184,7 @@ const myrdeps = {b, name, mt
 			(cflags, ll, lf) = scrapecflags(b, mt, p)
 			depends(g, go, o)
 			n = node(g, o)
+			n.deptime = mt.bldtime
 			generates(g, n, o)
 			depends(g, n, p)
 			ccmd(b, n, mt, o, p, cflags)
@@ -207,11 +213,14 @@ const myrdeps = {b, name, mt
 }
 
 const cmddeps = {b, name, ct
-	var n, a, p, gen, pid
+	var n, a, p, gen, newest, pid
 
 	n = node(b.deps, std.strjoin(ct.cmd, " "))
 	n.wdir = std.sldup(ct.dir)
 	n.durable = ct.durable
+	if !ct.durable
+		n.deptime = ct.bldtime
+	;;
 
 	for c : ct.cmd
 		std.slpush(&n.cmd, std.sldup(c))
@@ -226,10 +235,15 @@ const cmddeps = {b, name, ct
 		;;
 	;;
 
+	/* the sources among the outputs get scraped, so they have to be current by then */
+	newest = n.deptime
+	for d : ct.deps
+		newest = std.max(newest, std.tryv(std.fmtime(d), 0))
+	;;
 	gen = false
 	for g : ct.gen
 		p = std.pathcat(ct.dir, g)
-		gen = gen || !std.fexists(p)
+		gen = gen || std.tryv(std.fmtime(p), -1) < newest
 		generates(b.deps, n, p)
 	;;
 
@@ -334,6 +348,7 @@ const addalt = {b, mt, kind, f
 	std.slfree(o)
 
 	n = node(g, sp)
+	n.deptime = mt.bldtime
 	generates(g, n, op)
 	depends(g, n, sp)
 	testinc = [][:]
@@ -351,6 +366,7 @@ const addalt = {b, mt, kind, f
 	myrcmd(b, n, mt, sp, true)
 
 	n = node(g, tp)
+	n.deptime = mt.bldtime
 	generates(g, n, tp)
 	depends(g, n, op)
 	linkcmd(b, n, mt, tp, libs, [][:], [][:], true)
diff --git a/mbld/parse.myr b/mbld/parse.myr
index 6c1ad42..a645c42 100644
--- a/mbld/parse.myr
+++ b/mbld/parse.myr
@@ -18,6 +18,7 @@ type parser = struct
 	fdir	: byte[:]	/* directory relative to base */
 	basedir	: byte[:]
 	line	: int
+	mtime	: std.time
 
 	/* all targets */
 	targs	: targ[:]
@@ -234,6 +235,7 @@ const mkparser = {path, dir, basedir, sel
 	| `std.Err _:	std.fatal("could not open '{}'\n", path)
 	;;
 	p.rest = p.data
+	p.mtime = std.tryv(std.fmtime(path), 0)
 	-> p
 }
 
@@ -389,6 +391,7 @@ const cmdtarget = {b, p, cmd, iscmd
 		.deps=deplist,
 		.cmd=cmdlist,
 		.tags=tags,
+		.bldtime=p.mtime,
 	])
 	for o : outlist
 		if iscmd
@@ -477,6 +480,7 @@ const myrtarget = {b, p, targ
 		.isdyn=false,
 		/* attrs */
 		.tags=tags,
+		.bldtime=p.mtime,
 		.install=install,
 		.ldscript=ldscript,
 		.runtime=runtime,
diff --git a/mbld/syssel.myr b/mbld/syssel.myr
index ce75701..b5f2c45 100644
--- a/mbld/syssel.myr
+++ b/mbld/syssel.myr
@@ -268,6 +268,7 @@ const loadtagfile = {b, tagfile
 		;;
 	;;
 	bio.close(tf)
+	b.tctime = std.max(b.tctime, std.tryv(std.fmtime(tagfile), 0))
 	
 	/* 
 	 * Because tags may depend on other tags, we need to iterate
diff --git a/mbld/types.myr b/mbld/types.myr
index f18aafa..4202242 100644
--- a/mbld/types.myr
+++ b/mbld/types.myr
@@ -41,6 +41,7 @@ pkg bld =
 		/* dir, lib, targname */
 		libdeps	: (byte[:], byte[:], byte[:])[:]
 		tstdeps	: (byte[:], byte[:], byte[:])[:]
+		bldtime	: std.time	/* time the build file was changed */
 		runtime	: byte[:]
 		tags	: byte[:][:]
 		ldscript	: byte[:]
@@ -62,6 +63,7 @@ pkg bld =
 		gen	: byte[:][:]
 		cmd	: byte[:][:] 
 		deps	: byte[:][:] 
+		bldtime	: std.time
 		tags	: byte[:][:]
 		durable	: bool
 		istest	: bool
@@ -134,6 +136,7 @@ pkg bld =
 		nblock	: int32
 		mtime	: std.time
 		durable	: bool	/* keep outputs when cleaning */
+		rmout	: bool	/* remove outputs before updating */
 		want	: bool
 	;;
 ;;
-- 
2.43.0

