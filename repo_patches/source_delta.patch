From deb1805c3c121fbc6cc2cf06b8319ed66c581e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 01/98] fix: reach the single-letter case tables in chartype
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The range lookup succeeds for every code point above the first range, so
chaining the singleton lookup with elif made it unreachable: toupper('ā')
returned 'ā' and isalpha missed all single letters.
---
 lib/std/chartype.myr | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/std/chartype.myr b/lib/std/chartype.myr
index 500bee1..5bfecbe 100644
--- a/lib/std/chartype.myr
+++ b/lib/std/chartype.myr
@@ -1534,11 +1534,13 @@ const isalpha = {c
 
 	if isupper(c) || islower(c)
 		-> true
-	elif findc(c, ralpha2[:], ralpha2.len/2, 2, &l)
+	;;
+	if findc(c, ralpha2[:], ralpha2.len/2, 2, &l)
 		if (c >= l[0] && c <= l[1])
 			-> true
 		;;
-	elif findc(c, ralpha1[:], ralpha1.len, 1, &l)
+	;;
+	if findc(c, ralpha1[:], ralpha1.len, 1, &l)
 		if (c == l[0])
 			-> true
 		;;
@@ -1597,7 +1599,8 @@ const islower = {c
 		if (c >= l[0] && c <= l[1])
 			-> true
 		;;
-	elif findc(c, rtoupper1[:], rtoupper1.len/2, 2, &l)
+	;;
+	if findc(c, rtoupper1[:], rtoupper1.len/2, 2, &l)
 		if (c == l[0])
 			-> true
 		;;
@@ -1613,7 +1616,8 @@ const isupper = {c
 		if (c >= l[0] && c <= l[1])
 			-> true
 		;;
-	elif findc(c, rtolower1[:], rtolower1.len/2, 2, &l)
+	;;
+	if findc(c, rtolower1[:], rtolower1.len/2, 2, &l)
 		if (c == l[0])
 			-> true
 		;;
@@ -1636,7 +1640,8 @@ const tolower = {c
 		if c >= l[0] && c <= l[1]
 			-> c + l[2] - 500;
 		;;
-	elif findc(c, rtolower1[:], rtolower1.len/2, 2, &l) 
+	;;
+	if findc(c, rtolower1[:], rtolower1.len/2, 2, &l) 
 		if c == l[0]
 			-> c + l[1] - 500;
 		;;
@@ -1651,7 +1656,8 @@ const toupper = {c
 		if c >= l[0] && c <= l[1]
 			-> c + l[2] - 500;
 		;;
-	elif findc(c, rtoupper1[:], rtoupper1.len/2, 2, &l);
+	;;
+	if findc(c, rtoupper1[:], rtoupper1.len/2, 2, &l);
 		if c == l[0]
 			-> c + l[1] - 500;
 		;;
-- 
2.43.0


From b2fe0b72a17a36dcb713528876caf43e98d6efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 02/98] fix: bycharoff yields the offset of the character, not
 of the next one
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The documented sequence for "ὐbὐc" is (ὐ, 0), (b, 3), (ὐ, 4), (c, 7).
---
 lib/std/striter.myr | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/std/striter.myr b/lib/std/striter.myr
index dce382c..edb849d 100644
--- a/lib/std/striter.myr
+++ b/lib/std/striter.myr
@@ -112,14 +112,15 @@ const bygrapheme = {str
  */
 impl iterable charoffiter -> (char, size) = 
 	__iternext__ = {ci, cv
-		var c
+		var c, off
 
 		if ci.idx == ci.str.len
 			-> false
 		;;
-		c = std.decode(ci.str[ci.idx:])
+		off = ci.idx
+		c = std.decode(ci.str[off:])
 		ci.idx += std.charlen(c)
-		cv# = (c, ci.idx)
+		cv# = (c, off)
 		-> true
 	}
 
-- 
2.43.0


From cd7b1ec23b97bf0f65096a454e4e7496972a8844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 03/98] fix: strtok skips whole multi-byte blanks

Advancing one byte into a multi-byte space left its continuation bytes
behind as (part of) the next token.
---
 lib/std/strsplit.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/strsplit.myr b/lib/std/strsplit.myr
index af34838..3481a9b 100644
--- a/lib/std/strsplit.myr
+++ b/lib/std/strsplit.myr
@@ -85,7 +85,7 @@ const dostrtok = {toks, s, grow
 	idx = 0
 	while i != s.len
 		while isspace(std.decode(s[i:])) && i < s.len
-			i++
+			i += charlen(std.decode(s[i:]))
 		;;
 		j = i
 		while !std.isspace(std.decode(s[j:])) && j < s.len
-- 
2.43.0


From d99f059a000beb6d1a246933346accf6e95cac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 04/98] fix: htput must not insert a second copy of a key
 behind a tombstone

htput stopped at the first dead slot of the probe chain, so a key living
further along was inserted again; deleting it later exposed the stale
first copy.
---
 lib/std/htab.myr | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/std/htab.myr b/lib/std/htab.myr
index 9c00da5..e9632cd 100644
--- a/lib/std/htab.myr
+++ b/lib/std/htab.myr
@@ -131,14 +131,23 @@ generic htfree = {ht
 generic htput = {ht, k, v
 	var i, di
 	var h
-	var found
+	var tomb
+	var found, reuse
 
 	di = 0
 	h = xhash(k)
 	i = h & (ht.keys.len - 1)
+	tomb = i
 	found = false
-	while ht.hashes[i] != 0 && !ht.dead[i]
-		if ht.hashes[i] == h &&	eq(ht.keys[i], k)
+	reuse = false
+	/* the key may live past a tombstone, so look at the whole chain */
+	while ht.hashes[i] != 0
+		if ht.dead[i]
+			if !reuse
+				tomb = i
+				reuse = true
+			;;
+		elif ht.hashes[i] == h && eq(ht.keys[i], k)
 			found = true
 			break
 		;;
@@ -146,6 +155,10 @@ generic htput = {ht, k, v
 		i = (h + di) & (ht.keys.len - 1)
 	;;
 	if !found
+		if reuse
+			i = tomb
+			ht.ndead--
+		;;
 		ht.keys[i] = k
 		ht.nelt++
 	;;
-- 
2.43.0


From 0f7813690f331500d4e77a58f353ce158458ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 05/98] fix: bsintersect keeps no members beyond the shorter
 set

---
 lib/std/bitset.myr | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/std/bitset.myr b/lib/std/bitset.myr
index 3d8c2ff..448f88d 100644
--- a/lib/std/bitset.myr
+++ b/lib/std/bitset.myr
@@ -126,6 +126,10 @@ const bsintersect = {a, b
 	for var i = 0; i < n; i++
 		a.bits[i] &= b.bits[i]
 	;;
+	/* b has no members past its end */
+	for var i = n; i < a.bits.len; i++
+		a.bits[i] = 0
+	;;
 }
 
 const bsdiff = {a, b
-- 
2.43.0


From 39c8174392ed6f290639cd34cd07602685cfd08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 06/98] fix: negative values are never members of a bitset

bshas(bs, -1) tested bit 63 and bsdel(bs, -1) deleted it, because the
quotient rounds to word 0 and the shift count wraps.
---
 lib/std/bitset.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/bitset.myr b/lib/std/bitset.myr
index 448f88d..b100195 100644
--- a/lib/std/bitset.myr
+++ b/lib/std/bitset.myr
@@ -93,7 +93,7 @@ generic bsdel = {bs, v
 	changed = false
 	idx = (v : size) / (8*sizeof(size))
 	off = (v : size) % (8*sizeof(size))
-	if idx < bs.bits.len
+	if (v : size) >= 0 && idx < bs.bits.len
 		changed = (bs.bits[idx] & (1 << off)) != 0
 		bs.bits[idx] &= ~(1 << off)
 	;;
@@ -106,7 +106,7 @@ generic bshas = {bs, v
 
 	idx = (v : size) / (8*sizeof(size))
 	off = (v : size) % (8*sizeof(size))
-	if idx >= bs.bits.len
+	if (v : size) < 0 || idx >= bs.bits.len
 		-> false
 	;;
 	-> (bs.bits[idx] & (1 << off)) != 0
-- 
2.43.0


From b5ef0f3c591ddd054ccdf37534dc628df37d1806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 07/98] fix: don't build an aggregate in place over a value it
 refers to

---
 6/simp.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/6/simp.c b/6/simp.c
index 6b2a9d6..044df3c 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -776,7 +776,20 @@ assign(Simp *s, Node *lhs, Node *rhs)
 	Node *t, *u, *v, *r;
 
 	t = lval(s, lhs);
-	u = rval(s, rhs, t);
+	switch (exprop(rhs)) {
+	case Ostruct:
+	case Oarr:
+	case Otup:
+	case Oucon:
+	case Oslice:
+		/* these are stored piece by piece, and the later pieces may
+		 * still read the old value, so we can't build them in place */
+		u = rval(s, rhs, NULL);
+		break;
+	default:
+		u = rval(s, rhs, t);
+		break;
+	}
 
 	if (tybase(exprtype(lhs))->type == Tyvoid)
 		return u;
-- 
2.43.0


From cbbded5ef12fff7eaf8bdfa3bb3982b8e04e6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 08/98] fix: small aggregates returned in registers overwrote
 what follows them

---
 6/simp.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index 044df3c..59891a9 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -169,7 +169,8 @@ static void
 forcelocal(Simp *s, Node *n)
 {
 	assert(n->type == Ndecl || (n->type == Nexpr && exprop(n) == Ovar));
-	s->stksz += size(n);
+	/* small aggregates travel in registers, and are stored in whole words */
+	s->stksz += stacknode(n) ? align(size(n), Ptrsz) : size(n);
 	s->stksz = align(s->stksz, min(size(n), Ptrsz));
 	if (debugopt['i']) {
 		dumpn(n, stdout);
@@ -1071,6 +1072,22 @@ getcode(Simp *s, Node *n)
 	return r;
 }
 
+/*
+ * Aggregates returned in registers are stored one word at a time, so if the
+ * last piece isn't the size of a register, storing it writes past the end of
+ * the value. That's only ok if the destination is a (padded) temporary.
+ */
+static int
+oddtail(Type *t)
+{
+	size_t tail;
+
+	if (classify(t) == ArgBig)
+		return 0;
+	tail = tysize(t) % Ptrsz;
+	return tail != 0 && tail != 1 && tail != 2 && tail != 4;
+}
+
 static Node *
 simpcall(Simp *s, Node *n, Node *dst)
 {
@@ -1089,7 +1106,7 @@ simpcall(Simp *s, Node *n, Node *dst)
 	ft = tybase(exprtype(fn));
 	if (exprtype(n)->type == Tyvoid)
 		r = NULL;
-	else if (isstacktype(exprtype(n)) && dst)
+	else if (isstacktype(exprtype(n)) && dst && !oddtail(exprtype(n)))
 		r = dst;
 	else
 		r = temp(s, n);
-- 
2.43.0


From 2bf409b7c74fc44f1757bb87079506fcb46d63ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 09/98] fix: an optional option argument may be missing at the
 end of the arguments

---
 lib/std/optparse.myr | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/std/optparse.myr b/lib/std/optparse.myr
index ec6c59d..22f47d6 100644
--- a/lib/std/optparse.myr
+++ b/lib/std/optparse.myr
@@ -133,6 +133,10 @@ const optnext = {ctx
 			put("Expected argument for '{}'\n", c)
 			optusage(ctx.optargs[0], ctx.optdef)
 			exit(1)
+		/* '-a' at the end, and the argument is optional */
+		else
+			arg = ""
+			next(ctx)
 		;;
 		match dest
 		| `std.Some d:	d# = arg
-- 
2.43.0


From 058e959197854285479d25ac481be3e6d14a5839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 10/98] fix: a numeral without digits doesn't parse as an
 integer

---
 lib/std/intparse.myr | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/std/intparse.myr b/lib/std/intparse.myr
index 446abc8..aae1f4a 100644
--- a/lib/std/intparse.myr
+++ b/lib/std/intparse.myr
@@ -50,8 +50,10 @@ generic intparsebase = {s, base
 generic doparse = {s, isneg, base ->  option(@a) :: integral,numeric @a
 	var v
 	var cv : int32
+	var ndigit
 	
 	v = 0
+	ndigit = 0
 	for c : std.bychar(s)
 		if c == '_'
 			continue
@@ -60,12 +62,15 @@ generic doparse = {s, isneg, base ->  option(@a) :: integral,numeric @a
 		if cv >= 0
 			v *= (base : @a)
 			v += (cv : @a)
+			ndigit++
 		else
 			-> `None
 		;;
 	;;
 
-	if isneg
+	if ndigit == 0
+		-> `None
+	elif isneg
 		-> `Some -v
 	else
 		-> `Some v
-- 
2.43.0


From 90861356069053e6135c8b56c5427549ae2cfaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 11/98] fix: ipparse accepts exactly the well formed addresses

---
 lib/std/ipparse.myr | 50 +++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/lib/std/ipparse.myr b/lib/std/ipparse.myr
index f8bba34..5ffd8ea 100644
--- a/lib/std/ipparse.myr
+++ b/lib/std/ipparse.myr
@@ -63,44 +63,46 @@ const ip6parse = {ip
 	ok = true
 	expand = false
 	segsplit = 0
-
-	if ip.len > 2 && eq(ip[:2], "::")
+	if ip.len >= 2 && eq(ip[:2], "::")
 		expand = true
+		ip = ip[2:]
 	;;
-
 	nseg = 0
-	for var i = 0; ip.len > 0 && ok; i++
+	while ip.len > 0
+		if nseg == ipv6seg
+			-> `None
+		;;
 		/* parse 'num' segment */
-		(v, ip, ok) = num(ip, 0, 65536, 16, ':', ok)
+		(v, ip, ok) = num(ip, 0, 65535, 16, ':', ok)
+		if !ok
+			-> `None
+		;;
 
 		/* pack it into the bytes */
-		val[i*2] = ((v & 0xff00) >> 8 : byte)
-		val[i*2 + 1] = (v & 0xff : byte)
-
+		val[nseg*2] = ((v & 0xff00) >> 8 : byte)
+		val[nseg*2 + 1] = (v & 0xff : byte)
 		nseg++
-		if ip.len == 0 || nseg == ipv6seg
+
+		if ip.len == 0
 			break
 		;;
-
 		(ip, ok) = delim(ip, ':', ok)
+		if ip.len == 0
+			-> `None
+		;;
 		/* only one '::' allowed once */
-		if ip.len > 0 && ip[0] == (':' : byte) && !expand
+		if ip[0] == (':' : byte) && !expand
 			(ip, ok) = delim(ip, ':', ok)
 			expand = true
 			segsplit = nseg
 		;;
 	;;
-
-	if ok && ip.len == 0
-		if expand
-			expandsplit(val[:], nseg, segsplit)
-		elif nseg != ipv6seg
-			-> `None
-		;;
-		-> `Some `Ipv6 val
-	else
+	if expand && nseg < ipv6seg
+		expandsplit(val[:], nseg, segsplit)
+	elif expand || nseg != ipv6seg
 		-> `None
 	;;
+	-> `Some `Ipv6 val
 }
 
 /* take "a:b::c:d" and expand it to "a:b:0:0:...:0:c:d" */
@@ -136,6 +138,14 @@ generic num = {ip, lo, hi, base, sep, ok -> (@a, byte[:], bool) :: numeric,integ
 		if ip[len] == (sep : byte)
 			break
 		;;
+		/* only digits: no sign, and no '_' separators */
+		if !isxdigit((ip[len] : char))
+			-> (0, "", false)
+		;;
+	;;
+	/* at most '255' or 'ffff': don't let a longer number overflow */
+	if len > (base == 10 ? 3 : 4)
+		-> (0, "", false)
 	;;
 	match intparsebase(ip[:len], base)
 	| `std.Some v:
-- 
2.43.0


From 22cd3584166a0db5c7dac6aa317af22c5ccbcef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 12/98] fix: preserve rbx, which the platform ABI makes
 callee-saved, for C callers

---
 6/isel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/6/isel.c b/6/isel.c
index 0000424..81ee87c 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -1199,7 +1199,7 @@ isel(Isel *s, Node *n)
 /* %rax is for int returns, %xmm0d is for floating returns */
 Reg
 savedregs[] = {
-	Rr12, Rr13, Rr14, Rr15,
+	Rrbx, Rr12, Rr13, Rr14, Rr15,
 	Rnone
 };
 
-- 
2.43.0


From 2f7e73db104acdc119f5a8cb063a28fee6954cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 13/98] fix: constant folding wraps to the type's width,
 respects unsignedness and keeps side effects

---
 parse/fold.c | 83 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 70 insertions(+), 13 deletions(-)

diff --git a/parse/fold.c b/parse/fold.c
index 4094c49..36c9d6a 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -43,12 +43,52 @@ isintval(Node *n, vlong val)
 	return v == val;
 }
 
+/* wraps a value to the width of an integer type */
+static vlong
+wrap(vlong v, Type *t)
+{
+	switch (tybase(t)->type) {
+	case Tyint8:	return (int8_t)v;
+	case Tyint16:	return (int16_t)v;
+	case Tyint:
+	case Tyint32:	return (int32_t)v;
+	case Tybyte:
+	case Tyuint8:	return (uint8_t)v;
+	case Tyuint16:	return (uint16_t)v;
+	case Tychar:
+	case Tyuint:
+	case Tyuint32:	return (uint32_t)v;
+	default:	return v;
+	}
+}
+
+/* dropping an operand is fine as long as evaluating it has no effect */
+static int
+ispure(Node *n)
+{
+	size_t i;
+
+	switch (exprop(n)) {
+	case Ovar: case Olit:
+		return 1;
+	case Oadd: case Osub: case Omul: case Oneg:
+	case Oband: case Obor: case Obxor: case Obnot: case Obsl: case Obsr:
+	case Olnot: case Ocast: case Omemb: case Otupmemb:
+		for (i = 0; i < n->expr.nargs; i++)
+			if (n->expr.args[i]->type == Nexpr && !ispure(n->expr.args[i]))
+				return 0;
+		return 1;
+	default:
+		return 0;
+	}
+}
+
 static Node *
 val(Srcloc loc, vlong val, Type *t)
 {
 	Node *l, *n;
 
-	l = mkint(loc, val);
+	l = mkint(loc, wrap(val, t));
 	n = mkexpr(loc, Olit, l, NULL);
 	l->lit.type = t;
 	n->expr.type = t;
@@ -75,6 +115,7 @@ foldcast(Node *n)
 {
 	Type *to, *from;
 	Node *sub;
+	vlong v;
 
 	sub = n->expr.args[0];
 	to = exprtype(n);
@@ -92,7 +133,9 @@ foldcast(Node *n)
 		case Tyuint8: case Tyuint16: case Tyuint32: case Tyuint64:
 		case Tyint: case Tyuint: case Tychar: case Tybyte:
 		case Typtr:
-			if (exprop(sub) == Olit || tybase(from)->type == tybase(to)->type) {
+			if (exprop(sub) == Olit && getintlit(sub, &v)) {
+				return val(sub->loc, wrap(v, from), to);
+			} else if (exprop(sub) == Olit || tybase(from)->type == tybase(to)->type) {
 				sub->expr.type = to;
 				return sub;
 			} else {
@@ -171,7 +214,7 @@ fold(Node *n, int foldvar)
 		if (isintval(args[1], 0))
 			r = args[0];
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a + b, exprtype(n));
+			r = val(n->loc, (uint64_t)a + b, exprtype(n));
 		break;
 	case Osub:
 		/* x - 0 = 0 */
@@ -187,12 +230,12 @@ fold(Node *n, int foldvar)
 		if (isintval(args[1], 1))
 			r = args[0];
 		/* 0 * x = 0 */
-		if (isintval(args[0], 0))
+		if (isintval(args[0], 0) && ispure(args[1]))
 			r = args[0];
-		if (isintval(args[1], 0))
+		if (isintval(args[1], 0) && ispure(args[0]))
 			r = args[1];
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a * b, exprtype(n));
+			r = val(n->loc, (uint64_t)a * b, exprtype(n));
 		break;
 	case Odiv:
 		/* x/0 = error */
@@ -204,18 +247,26 @@ fold(Node *n, int foldvar)
 		/* 0/x = 0 */
 		if (isintval(args[1], 0))
 			r = args[1];
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a / b, exprtype(n));
+		if (getintlit(args[0], &a) && getintlit(args[1], &b)) {
+			if (istyunsigned(exprtype(n)))
+				r = val(n->loc, (uint64_t)a / (uint64_t)b, exprtype(n));
+			else
+				r = val(n->loc, b == -1 ? -(uint64_t)a : a / b, exprtype(n));
+		}
 		break;
 	case Omod:
 		/* x%0 = error */
 		if (isintval(args[1], 0))
 			fatal(args[1], "division by zero");
 		/* x%1 = 0 */
-		if (isintval(args[1], 1))
+		if (isintval(args[1], 1) && ispure(args[0]))
 			r = val(n->loc, 0, exprtype(n));
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a % b, exprtype(n));
+		if (getintlit(args[0], &a) && getintlit(args[1], &b)) {
+			if (istyunsigned(exprtype(n)))
+				r = val(n->loc, (uint64_t)a % (uint64_t)b, exprtype(n));
+			else
+				r = val(n->loc, b == -1 ? 0 : a % b, exprtype(n));
+		}
 		break;
 	case Oneg:
 		if (getintlit(args[0], &a))
@@ -223,11 +274,17 @@ fold(Node *n, int foldvar)
 		break;
 	case Obsl:
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, (uint64_t)a << b, exprtype(n));
+			if (b >= 0 && b < 64)
+				r = val(n->loc, (uint64_t)a << b, exprtype(n));
 		break;
 	case Obsr:
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a >> b, exprtype(n));
+			if (b >= 0 && b < 64) {
+				if (istyunsigned(exprtype(n)))
+					r = val(n->loc, (uint64_t)a >> b, exprtype(n));
+				else
+					r = val(n->loc, a >> b, exprtype(n));
+			}
 		break;
 	case Obor:
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-- 
2.43.0


From d4534417df7dc5644054e127b4567966427c9a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 14/98] fix: widening a 32 bit unsigned value clears the top
 half of its register

---
 6/gengas.c | 2 ++
 6/genp9.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/6/gengas.c b/6/gengas.c
index b224300..b0c6e2c 100644
--- a/6/gengas.c
+++ b/6/gengas.c
@@ -124,6 +124,8 @@ iprintf(FILE *fd, Insn *insn)
 			if (insn->args[1]->reg.colour) {
 				insn->op = Imov;
 				insn->args[1] = coreg(insn->args[1]->reg.colour, ModeL);
+				/* needed even if the regs match: it clears the top half */
+				break;
 			}
 		}
 		if(dumbmov(insn->args[0], insn->args[1]))
diff --git a/6/genp9.c b/6/genp9.c
index 4fd9257..82de0b2 100644
--- a/6/genp9.c
+++ b/6/genp9.c
@@ -122,6 +122,8 @@ iprintf(FILE *fd, Insn *insn)
 			if (insn->args[1]->reg.colour) {
 				insn->op = Imov;
 				insn->args[1] = coreg(insn->args[1]->reg.colour, ModeL);
+				/* needed even if the regs match: it clears the top half */
+				break;
 			}
 		}
 		if(dumbmov(insn->args[0], insn->args[1]))
-- 
2.43.0


From f56f3c0bf7182d977334fbda2f4b3c965b734768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 15/98] fix: 8 bit remainder of any register, and signedness of
 a shift whose result is cast

---
 6/isel.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index 81ee87c..d1c1c08 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -843,16 +843,15 @@ rolop(Isel *s, Node *n, Node *l, Node *r)
 	int64_t lv, rv;
 	Type *ty;
 
-	ty = tybase(exprtype(n));
-
-	if (!istyunsigned(ty))
-		return NULL;
 	if (exprop(l) != Obsl && exprop(l) != Obsr)
 		return NULL;
 	if (exprop(r) != Obsl && exprop(r) != Obsr)
 		return NULL;
 	if (exprop(r) == exprop(l))
 		return NULL;
+	ty = tybase(exprtype(l->expr.args[0]));
+	if (!istyunsigned(ty))
+		return NULL;
 	if (exprop(l->expr.args[0]) != Ovar)
 		return NULL;
 	if (exprop(r->expr.args[0]) != Ovar)
@@ -951,8 +950,12 @@ selexpr(Isel *s, Node *n)
 			d = coreg(Reax, mode(n));
 		else if (r->mode != ModeB)
 			d = coreg(Redx, mode(n));
-		else
-			d = locphysreg(Rah);
+		else {
+			/* ah can't be encoded along with a REX prefix */
+			d = coreg(Rax, ModeW);
+			g(s, Ishr, loclit(8, ModeB), d, NULL);
+			d = locphysreg(Ral);
+		}
 		g(s, Imov, d, r, NULL);
 		break;
 	case Oneg:
@@ -995,7 +998,8 @@ selexpr(Isel *s, Node *n)
 			d = cl;
 		}
 		if (exprop(n) == Obsr) {
-			if (istysigned(n->expr.type))
+			/* a cast may have relabelled n, but not what it shifts */
+			if (istysigned(exprtype(args[0])))
 				g(s, Isar, d, a, NULL);
 			else
 				g(s, Ishr, d, a, NULL);
-- 
2.43.0


From 0943b0a78a92dc35cde6185a57fc1d7cb03d6301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 16/98] fix: compilers running at the same moment don't share a
 temporary file

---
 6/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/6/main.c b/6/main.c
index 5af7b1e..2765ffe 100644
--- a/6/main.c
+++ b/6/main.c
@@ -156,7 +156,7 @@ gentempfile(char *buf, size_t bufsz, char *path, char *suffix)
 	else
 		base = path;
 	gettimeofday(&tv, NULL);
-	bprintf(buf, bufsz, "%s/tmp%lx%lx-%s%s", tmpdir, (long)tv.tv_sec, (long)tv.tv_usec, base, suffix);
+	bprintf(buf, bufsz, "%s/tmp%lx%lx%lx-%s%s", tmpdir, (long)getpid(), (long)tv.tv_sec, (long)tv.tv_usec, base, suffix);
 	return buf;
 }
 
-- 
2.43.0


From 21db06a054829ac62d355dcad9a342f893f98baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 17/98] fix: an operand keeps its value when a later one
 changes the variable it was loaded from

---
 mi/flatten.c | 67 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 3 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 193e64b..cb69782 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -181,14 +181,70 @@ seqlen(Flattenctx *s, Node *n, Type *ty)
 	return r;
 }
 
+/* can evaluating n change the value of something evaluated before it? */
+static int
+haseffect(Node *n)
+{
+	size_t i;
+
+	if (n->type != Nexpr)
+		return 0;
+	switch (exprop(n)) {
+	case Ocall: case Oasn: case Oauto:
+	case Oaddeq: case Osubeq: case Omuleq: case Odiveq: case Omodeq:
+	case Oboreq: case Obandeq: case Obxoreq: case Obsleq: case Obsreq:
+	case Opreinc: case Opredec: case Opostinc: case Opostdec:
+		return 1;
+	case Osize:
+		return 0;
+	default:
+		break;
+	}
+	for (i = 0; i < n->expr.nargs; i++)
+		if (haseffect(n->expr.args[i]))
+			return 1;
+	return 0;
+}
+
+/*
+ * Flattened expressions load variables where they are used. If something
+ * evaluated in between may change them, we need to keep the value.
+ */
+static Node *
+hold(Flattenctx *s, Node *n)
+{
+	Node *t;
+
+	if (exprop(n) == Olit || isconstfn(n))
+		return n;
+	if (exprop(n) == Oaddr && exprop(n->expr.args[0]) == Ovar)
+		return n;
+	if (tybase(exprtype(n))->type == Tyvoid)
+		return n;
+	t = temp(s, n);
+	t->expr.idx = n->expr.idx;
+	append(s, asn(t, n));
+	return t;
+}
+
 static Node *
 visit(Flattenctx *s, Node *n)
 {
-	size_t i;
+	size_t i, last;
 	Node *r;
 
-	for (i = 0; i < n->expr.nargs; i++)
+	last = 0;
+	for (i = 1; i < n->expr.nargs; i++)
+		if (haseffect(n->expr.args[i]))
+			last = i;
+	for (i = 0; i < n->expr.nargs; i++) {
 		n->expr.args[i] = rval(s, n->expr.args[i]);
+		/* slicing an array refers to the array itself */
+		if (exprop(n) == Oslice && tybase(exprtype(n->expr.args[i]))->type == Tyarray)
+			continue;
+		if (i < last)
+			n->expr.args[i] = hold(s, n->expr.args[i]);
+	}
 	if (opispure[exprop(n)]) {
 		r = n;
 	} else {
@@ -382,7 +438,10 @@ comparecomplex(Flattenctx *s, Node *n, Op op)
 	/* special case: unions with nullary constructors can be compared easily. */
 	ty = tybase(exprtype(n->expr.args[0]));
 	if (ty->type == Tyunion && isenum(ty)) {
-		l = mkexpr(n->loc, Outag, rval(s, n->expr.args[0]), NULL);
+		l = rval(s, n->expr.args[0]);
+		if (haseffect(n->expr.args[1]))
+			l = hold(s, l);
+		l = mkexpr(n->loc, Outag, l, NULL);
 		r = mkexpr(n->loc, Outag, rval(s, n->expr.args[1]), NULL);
 		l->expr.type = mktype(n->loc, Tyuint32);
 		r->expr.type = mktype(n->loc, Tyuint32);
@@ -539,6 +598,8 @@ rval(Flattenctx *s, Node *n)
 		break;
 	case Oidx:
 		t = rval(s, n->expr.args[0]);
+		if (tybase(exprtype(t))->type == Tyslice && haseffect(args[1]))
+			t = hold(s, t);
 		u = rval(s, n->expr.args[1]);
 		r = mkexpr(n->loc, Oidx, t, u, NULL);
 		r->expr.type = n->expr.type;
-- 
2.43.0


From b8b7c60e323b2b449ef5eaec8d7e9f3720784db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 18/98] fix: increments in a loop condition or behind && and ||
 are applied exactly when evaluated

---
 mi/flatten.c | 51 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index cb69782..5c22a9b 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -58,6 +58,7 @@ static Node *flatten(Flattenctx *s, Node *n);
 static Node *rval(Flattenctx *s, Node *n);
 static Node *lval(Flattenctx *s, Node *n);
 static Node *assign(Flattenctx *s, Node *lhs, Node *rhs);
+static void flattencond(Flattenctx *s, Node *n, Node *ltrue, Node *lfalse);
 static void draininc(Flattenctx *c);
 
 static void
@@ -301,6 +302,44 @@ dispose(Flattenctx *s, Stab *st, size_t n)
 	}
 }
 
+static int
+haspostinc(Node *n)
+{
+	size_t i;
+
+	if (n->type != Nexpr || exprop(n) == Osize)
+		return 0;
+	if (exprop(n) == Opostinc || exprop(n) == Opostdec)
+		return 1;
+	for (i = 0; i < n->expr.nargs; i++)
+		if (haspostinc(n->expr.args[i]))
+			return 1;
+	return 0;
+}
+
+/*
+ * The increments of a conditionally evaluated expression have to be
+ * applied if and only if it was evaluated, so they go before the jump.
+ */
+static void
+flattenguarded(Flattenctx *s, Node *n, Node *ltrue, Node *lfalse)
+{
+	Node *t;
+	size_t i, nqueue;
+
+	if (!haspostinc(n)) {
+		flattencond(s, n, ltrue, lfalse);
+		return;
+	}
+	nqueue = s->nqueue;
+	t = temp(s, n);
+	append(s, asn(t, rval(s, n)));
+	for (i = nqueue; i < s->nqueue; i++)
+		append(s, s->incqueue[i]);
+	s->nqueue = nqueue;
+	cjmp(s, t, ltrue, lfalse);
+}
+
 static void
 flattencond(Flattenctx *s, Node *n, Node *ltrue, Node *lfalse)
 {
@@ -313,13 +352,13 @@ flattencond(Flattenctx *s, Node *n, Node *ltrue, Node *lfalse)
 		lnext = genlbl(n->loc);
 		flattencond(s, args[0], lnext, lfalse);
 		append(s, lnext);
-		flattencond(s, args[1], ltrue, lfalse);
+		flattenguarded(s, args[1], ltrue, lfalse);
 		break;
 	case Olor:
 		lnext = genlbl(n->loc);
 		flattencond(s, args[0], ltrue, lnext);
 		append(s, lnext);
-		flattencond(s, args[1], ltrue, lfalse);
+		flattenguarded(s, args[1], ltrue, lfalse);
 		break;
 	case Olnot:
 		flattencond(s, args[0], lfalse, ltrue);
@@ -802,12 +841,10 @@ flattenloop(Flattenctx *s, Node *n)
 	Loop l;
 	Node *lbody;
 	Node *lend;
-	Node *ldec;
 	Node *lcond;
 	Node *lstep;
 
 	lbody = genlbl(n->loc);
-	ldec = genlbl(n->loc);
 	lcond = genlbl(n->loc);
 	lstep = genlbl(n->loc);
 	lend = genlbl(n->loc);
@@ -828,12 +865,8 @@ flattenloop(Flattenctx *s, Node *n)
 	flatten(s, lstep);             /* test lbl */
 	flatten(s, n->loopstmt.step);  /* step */
 	flatten(s, lcond);             /* test lbl */
-	flattencond(s, n->loopstmt.cond, ldec, lend);    /* repeat? */
-	flatten(s, ldec);        	/* drain decrements */
-	draininc(s);
-	jmp(s, lbody);              	/* goto test */
+	flattenguarded(s, n->loopstmt.cond, lbody, lend);    /* repeat? */
 	flatten(s, lend);             	/* exit */
-	draininc(s);
 
 	s->inloop--;
 	s->loop = l;
-- 
2.43.0


From 999f057f95c97548513ebcce5b44afe8150190cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 19/98] fix: assignments evaluate their right hand side first,
 as documented

---
 mi/flatten.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 5c22a9b..21cc81d 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -550,8 +550,11 @@ assign(Flattenctx *s, Node *lhs, Node *rhs)
 	if (exprop(lhs) == Otup) {
 		r = destructure(s, lhs, rhs);
 	} else if (tybase(exprtype(lhs))->type != Tyvoid) {
-		t = lval(s, lhs);
+		/* assignment is right associative, so the right side goes first */
 		u = rval(s, rhs);
+		if (haseffect(lhs))
+			u = hold(s, u);
+		t = lval(s, lhs);
 		e = asn(t, u);
 		append(s, e);
 		r = t;
-- 
2.43.0


From 4dade9855fe79b8916d0dcac757423c1441a1b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:32 +0000
Subject: [PATCH 20/98] fix: continue in a loop over an iterable runs its
 __iterfin__

---
 mi/flatten.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 21cc81d..6771b35 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -1066,7 +1066,7 @@ flattentraititer(Flattenctx *s, Node *n)
 
 	s->inloop++;
 	l = s->loop;
-	s->loop.lcnt = lstep;
+	s->loop.lcnt = lclean;
 	s->loop.lbrk = lend;
 	s->loop.body = n->iterstmt.body->block.scope;
 
-- 
2.43.0


From 19e9c51356a03850080e8f9ba56d17b278855ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:19 +0000
Subject: [PATCH 21/98] fix: a compound assignment used as a value is executed
 once, where it stands

---
 mi/flatten.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 6771b35..7688145 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -678,7 +678,8 @@ rval(Flattenctx *s, Node *n)
 		v = rval(s, args[1]);
 		v = mkexpr(n->loc, fusedmap[exprop(n)], u, v, NULL);
 		v->expr.type = u->expr.type;
-		r = asn(u, v);
+		append(s, asn(u, v));
+		r = u;
 		break;
 
 	/* ++expr(x)
-- 
2.43.0


From 317105bfdeb3255bdcf938075a4d42c5a5b3567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 22/98] fix: a delayed increment applies to the element its
 operand referred to

---
 mi/flatten.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 7688145..a191f30 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -578,6 +578,29 @@ draininc(Flattenctx *fc)
 	lfree(&fc->incqueue, &fc->nqueue);
 }
 
+/*
+ * A delayed increment has to apply to what its operand referred to when
+ * it was evaluated, even if the variables leading to it change meanwhile.
+ */
+static Node *
+pin(Flattenctx *s, Node *n)
+{
+	Node *p, *a, *r;
+
+	for (r = n; exprop(r) == Omemb || exprop(r) == Otupmemb; r = r->expr.args[0])
+		if (tybase(exprtype(r->expr.args[0]))->type == Typtr)
+			break;
+	if (exprop(r) == Ovar)
+		return n;
+	a = mkexpr(n->loc, Oaddr, n, NULL);
+	a->expr.type = mktyptr(n->loc, exprtype(n));
+	p = temp(s, a);
+	append(s, asn(p, a));
+	r = mkexpr(n->loc, Oderef, p, NULL);
+	r->expr.type = exprtype(n);
+	return r;
+}
+
 /* returns 1 when the exit jump needs to be emitted */
 static int
 exitscope(Flattenctx *s, Stab *stop, Srcloc loc, Exit x)
@@ -703,12 +726,12 @@ rval(Flattenctx *s, Node *n)
 	 *      x = x + 1
 	 */
 	case Opostinc:
-		r = lval(s, args[0]);
+		r = pin(s, lval(s, args[0]));
 		t = asn(r, addk(r, 1));
 		lappend(&s->incqueue, &s->nqueue, t);
 		break;
 	case Opostdec:
-		r = lval(s, args[0]);
+		r = pin(s, lval(s, args[0]));
 		t = asn(r, subk(r, 1));
 		lappend(&s->incqueue, &s->nqueue, t);
 		break;
-- 
2.43.0


From 532f9ac3f3ba2489214e3ffbe01e64e0dbc14199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 23/98] fix: the value of an assignment is what was stored,
 even if that moved its target

---
 mi/flatten.c | 49 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index a191f30..64afaf3 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -564,6 +564,18 @@ assign(Flattenctx *s, Node *lhs, Node *rhs)
 	return r;
 }
 
+/*
+ * Storing to these may change what they refer to, so that they can't
+ * be loaded again to get the value which was stored.
+ */
+static int
+isplace(Node *n)
+{
+	if (tybase(exprtype(n))->type == Tyvoid)
+		return 0;
+	return exprop(n) == Oidx || exprop(n) == Oderef || exprop(n) == Omemb || exprop(n) == Otupmemb;
+}
+
 /* 
  * If protect is not null, returns a node with the
  * unmodified value.
@@ -701,8 +713,10 @@ rval(Flattenctx *s, Node *n)
 		v = rval(s, args[1]);
 		v = mkexpr(n->loc, fusedmap[exprop(n)], u, v, NULL);
 		v->expr.type = u->expr.type;
+		if (isplace(u))
+			v = hold(s, v);
 		append(s, asn(u, v));
-		r = u;
+		r = isplace(u) ? v : u;
 		break;
 
 	/* ++expr(x)
@@ -710,15 +724,19 @@ rval(Flattenctx *s, Node *n)
 	 *     expr(x) */
 	case Opreinc:
 		t = lval(s, args[0]);
-		v = asn(t, addk(t, 1));
-		append(s, v);
-		r = rval(s, t);
+		v = addk(t, 1);
+		if (isplace(t))
+			v = hold(s, v);
+		append(s, asn(t, v));
+		r = isplace(t) ? v : t;
 		break;
 	case Opredec:
 		t = lval(s, args[0]);
-		v = asn(t, subk(t, 1));
-		append(s, v);
-		r = rval(s, t);
+		v = subk(t, 1);
+		if (isplace(t))
+			v = hold(s, v);
+		append(s, asn(t, v));
+		r = isplace(t) ? v : t;
 		break;
 
 	/* expr(x++)
@@ -765,7 +783,12 @@ rval(Flattenctx *s, Node *n)
 		r = flattentern(s, n);
 		break;
 	case Oasn:
-		r = assign(s, args[0], args[1]);
+		v = args[1];
+		if (isplace(args[0]))
+			v = hold(s, rval(s, v));
+		r = assign(s, args[0], v);
+		if (isplace(args[0]))
+			r = v;
 		break;
 	case Obreak:
 		r = NULL;
@@ -1164,9 +1187,13 @@ flattenexpr(Flattenctx *fc, Node *n)
 		append(fc, n);
 		return;
 	}
-	r = rval(fc, n);
-	if (r)
-		append(fc, r);
+	if (exprop(n) == Oasn && isplace(n->expr.args[0])) {
+		assign(fc, n->expr.args[0], n->expr.args[1]);
+	} else {
+		r = rval(fc, n);
+		if (r)
+			append(fc, r);
+	}
 	draininc(fc);
 }
 
-- 
2.43.0


From b9a8787e3b393c78856703c84590c7d336de9b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 24/98] fix: comparing decision trees with and without a
 default crashed the compiler

---
 mi/match.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index fd443d1..c03ae0c 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -253,13 +253,7 @@ dtreusable(Dtree *dt, Node *load, Node **pat, size_t npat, Dtree **next, size_t
 			return 0;
 	}
 
-	if (dt->any == NULL && any == NULL)
-		return 1;
-
-	if (dt->any->id != any->id)
-		return 0;
-
-	return 1;
+	return dt->any == any;
 }
 
 void
-- 
2.43.0


From 481533c19599bc409625b76f509d93fc29bef5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 25/98] fix: a named constant pattern is the same test as the
 literal

---
 mi/match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mi/match.c b/mi/match.c
index c03ae0c..1331565 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -475,7 +475,7 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 				fatal(dcl, "bad pattern %s:%s: unmatchable type", declname(dcl), tystr(ty));
 			if (!dcl->decl.init)
 				fatal(dcl, "bad pattern %s:%s: missing initializer", declname(dcl), tystr(ty));
-			addrec(fs, dcl->decl.init, val, mkpath(path, 0));
+			addrec(fs, dcl->decl.init, val, path);
 		} else {
 			asn = mkexpr(pat->loc, Oasn, pat, val, NULL);
 			asn->expr.type = exprtype(pat);
-- 
2.43.0


From cf669bf397be17dc0caf3ca65395fb09784027c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 26/98] fix: what follows an or-pattern applies to each
 alternative

---
 mi/match.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index 1331565..29fe152 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -439,6 +439,23 @@ frontierdup(Frontier *fs)
 }
 
 
+static void addrec(Frontier *fs, Node *pat, Node *val, Path *path);
+
+/*
+ * An or-pattern splits its frontier; what follows it in the pattern applies to
+ * each of the alternatives, that is, to everything between fs and end.
+ */
+static void
+addeach(Frontier *fs, Frontier *end, Node *pat, Node *val, Path *path)
+{
+	Frontier *next;
+
+	for (; fs != end; fs = next) {
+		next = fs->next;
+		addrec(fs, pat, val, path);
+	}
+}
+
 /* addrec generates a list of slots for a Frontier by walking a pattern tree.
  * It collects only the terminal patterns like union tags and literals.
  * Non-terminal patterns like tuple/struct/array help encode the path only.
@@ -451,8 +468,9 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 	Node *memb, *name, *tagid, *p, *v, *lit, *dcl, *asn, *deref;
 	Ucon *uc;
 	char *s;
-	Frontier *next;
+	Frontier *next, *end;
 
+	end = fs->next;
 	pat = fold(pat, 1);
 	switch (exprop(pat)) {
 	case Olor:
@@ -523,12 +541,12 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 		break;
 	case Otup:
 		for (i = 0; i < pat->expr.nargs; i++) {
-			addrec(fs, pat->expr.args[i], tupelt(val, i), mkpath(path, i));
+			addeach(fs, end, pat->expr.args[i], tupelt(val, i), mkpath(path, i));
 		}
 		break;
 	case Oarr:
 		for (i = 0; i < pat->expr.nargs; i++) {
-			addrec(fs, pat->expr.args[i], arrayelt(val, i), mkpath(path, i));
+			addeach(fs, end, pat->expr.args[i], arrayelt(val, i), mkpath(path, i));
 		}
 		break;
 	case Ostruct:
@@ -541,7 +559,7 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 				memb = mkexpr(ty->sdecls[i]->loc, Ogap, NULL);
 				memb->expr.type = mty;
 			}
-			addrec(fs, memb, structmemb(val, name, mty), mkpath(path, i));
+			addeach(fs, end, memb, structmemb(val, name, mty), mkpath(path, i));
 		}
 		break;
 	default:
-- 
2.43.0


From 9056ac88f979ad5d09335ef8b208486ccda68369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 27/98] fix: clauses after an exhaustive set of constructors
 are unreachable

---
 mi/match.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mi/match.c b/mi/match.c
index 29fe152..bd6eff8 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -790,7 +790,16 @@ pi_found:
 		if (k == -1 || exprop(fs->slot[k]->pat) == Ovar || exprop(fs->slot[k]->pat) == Ogap)
 			lappend(&defaults, &ndefaults, fs);
 	}
-	if (ndefaults)
+	switch (exprop(slot->load)) {
+	case Outag:
+		ncons = nconstructors(tybase(exprtype(slot->load->expr.args[0])));
+		break;
+	default:
+		ncons = nconstructors(tybase(exprtype(slot->load)));
+		break;
+	}
+	/* when all constructors are listed, nothing is left for the defaults */
+	if (ndefaults && nedge < ncons)
 		any = compile(defaults, ndefaults);
 	else
 		any = NULL;
-- 
2.43.0


From 1a2985d641984a051b45b2cabdb3c8e3547cf544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 28/98] fix: a match is only exhaustive when its default
 branches are

---
 mi/match.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mi/match.c b/mi/match.c
index bd6eff8..b166706 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -863,6 +863,8 @@ verifymatch(Dtree *t)
 	for (i = 0; i < t->nnext; i++)
 		if (!verifymatch(t->next[i]))
 			ret = 0;
+	if (t->any && !verifymatch(t->any))
+		ret = 0;
 	return ret;
 }
 
-- 
2.43.0


From b30fdc0156bb8ab14616414d659b7a56db8d4af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 29/98] fix: or-patterns capture whichever way their clause is
 reached

---
 mi/match.c | 47 ++++++++++++++++++++++++++++-------------------
 mi/mi.h    |  1 +
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index b166706..df96419 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -944,6 +944,18 @@ capcompatible(Node *a, Node *b)
 	return pa->expr.did == pb->expr.did && tyeq(exprtype(va), exprtype(vb));
 }
 
+/* the captures of or-patterns are done by the decision tree, before jumping to the block */
+static void
+setcapture(Frontier *fs)
+{
+	if (fs->ncap == 0)
+		return;
+	fs->final->cap = fs->cap;
+	fs->final->ncap = fs->ncap;
+	fs->final->target = fs->lbl;
+	fs->final->lbl = genlbl(fs->lbl->loc);
+}
+
 Dtree *
 gendtree(Node *m, Node *val, Node **lbl, size_t nlbl)
 {
@@ -995,8 +1007,7 @@ gendtree(Node *m, Node *val, Node **lbl, size_t nlbl)
 		 * assignments to the ir generation of dtree
 		 */
 		if (cur->hasorpat) {
-			cur->final->cap = cur->cap;
-			cur->final->ncap = cur->ncap;
+			setcapture(cur);
 		} else {
 			addcapture(pat[cur->i]->match.block, cur->cap, cur->ncap);
 		}
@@ -1040,7 +1051,7 @@ void
 genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 {
 	Node *jmp, *eq, *fail;
-	Node *next;
+	Node *next, *target;
 	int emit;
 	size_t i;
 
@@ -1050,7 +1061,13 @@ genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 
 	/* the we jump to the accept label when generating the parent */
 	if (dt->accept) {
-		jmp = mkexpr(dt->loc, Ojmp, dt->lbl, NULL);
+		target = dt->lbl;
+		if (dt->ncap > 0) {
+			lappend(out, nout, dt->lbl);
+			lcat(out, nout, dt->cap, dt->ncap);
+			target = dt->target;
+		}
+		jmp = mkexpr(dt->loc, Ojmp, target, NULL);
 		jmp->expr.type = mktype(dt->loc, Tyvoid);
 		lappend(out, nout, jmp);
 		return;
@@ -1065,11 +1082,7 @@ genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 			fail = genlbl(dt->loc);
 			emit = 1;
 		}
-		if (dt->next[i]->accept && dt->next[i]->ncap > 0) {
-			next = genlbl(dt->next[i]->loc);
-		} else {
-			next = dt->next[i]->lbl;
-		}
+		next = dt->next[i]->lbl;
 
 		eq = mkexpr(dt->loc, Oeq, dt->load, dt->pat[i], NULL);
 		eq->expr.type = mktype(dt->loc, Tybool);
@@ -1077,14 +1090,6 @@ genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 		jmp->expr.type = mktype(dt->loc, Tyvoid);
 		lappend(out, nout, jmp);
 
-		if (dt->next[i]->accept && dt->next[i]->ncap > 0) {
-			lappend(out, nout, next);
-			lcat(out, nout, dt->next[i]->cap, dt->next[i]->ncap);
-			jmp = mkexpr(dt->loc, Ojmp, dt->next[i]->lbl, NULL);
-			jmp->expr.type = mktype(dt->loc, Tyvoid);
-			lappend(out, nout, jmp);
-		}
-
 		genmatchcode(dt->next[i], out, nout);
 		if (emit)
 			lappend(out, nout, fail);
@@ -1101,14 +1106,18 @@ void
 genonematch(Node *pat, Node *val, Node *iftrue, Node *iffalse, Node ***out, size_t *nout, Node ***cap, size_t *ncap)
 {
 	Frontier **frontier;
-	size_t nfrontier;
+	size_t i, nfrontier;
 	Dtree *root;
 
 	ndtree = 0;
 	frontier = NULL;
 	nfrontier = 0;
 	genfrontier(0, val, pat, iftrue, &frontier, &nfrontier);
-	lcat(cap, ncap, frontier[0]->cap, frontier[0]->ncap);
+	if (!frontier[0]->hasorpat)
+		lcat(cap, ncap, frontier[0]->cap, frontier[0]->ncap);
+	for (i = 0; i < nfrontier; i++)
+		if (frontier[i]->hasorpat)
+			setcapture(frontier[i]);
 	genfrontier(1, val, mkexpr(iffalse->loc, Ogap, NULL), iffalse, &frontier, &nfrontier);
 	root = compile(frontier, nfrontier);
 	genmatchcode(root, out, nout);
diff --git a/mi/mi.h b/mi/mi.h
index 15664f5..050122f 100644
--- a/mi/mi.h
+++ b/mi/mi.h
@@ -60,6 +60,7 @@ struct Dtree {
 	 * before jumping into the block of a match arm .*/
 	Node **cap;
 	size_t ncap;
+	Node *target;
 
 	size_t refcnt;
 };
-- 
2.43.0


From d8726cb9bb5aea4e0c0732e55e967035edfb3a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 30/98] fix: an eightbyte in memory stays there when joined
 with an integer

---
 6/typeinfo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/6/typeinfo.c b/6/typeinfo.c
index b570e00..bfdaf8d 100644
--- a/6/typeinfo.c
+++ b/6/typeinfo.c
@@ -428,10 +428,10 @@ static void join_classification(PassIn *current, PassIn new)
 {
 	if (*current == PassInNoPref) {
 		*current = new;
+	} else if ((*current == PassInMemory) || (new == PassInMemory)) {
+		*current = PassInMemory;
 	} else if ((*current == PassInInt) || (new == PassInInt)) {
 		*current = PassInInt;
-	} else if (*current != new) {
-		*current = PassInMemory;
 	}
 }
 
-- 
2.43.0


From 3fc5f86faf5aa1ee9e4c96f1756fa143e3b42b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 31/98] fix: arrays in data are padded for every element left
 out

---
 6/blob.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/6/blob.c b/6/blob.c
index 9301723..48d51fa 100644
--- a/6/blob.c
+++ b/6/blob.c
@@ -322,13 +322,13 @@ blobrec(Blob *b, Htab *globls, Htab *strtab, Node *n)
 		for (i = 0; i < n->expr.nargs; i++) {
 			if (!getintlit(n->expr.args[i]->expr.idx, &idx))
 				die("non-numeric array size");
-			if (idx != last + 1)
+			if (idx != last)
 				sz += blobpad(b, (idx - last)*size(n->expr.args[i]));
 			sz += blobrec(b, globls, strtab, n->expr.args[i]);
 			last = idx + 1;
 		}
 		/* if we need padding at the end.. */
-		end = alignto(sz, exprtype(n));
+		end = size(n);
 		sz += blobpad(b, end - sz);
 		break;
 	default:
-- 
2.43.0


From 5f3dbfe0cc8415e10e54e86506500fb79aa4d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 32/98] fix: fold the negation of float literals

---
 parse/fold.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parse/fold.c b/parse/fold.c
index 36c9d6a..b2067d0 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -95,6 +95,18 @@ val(Srcloc loc, vlong val, Type *t)
 	return n;
 }
 
+static Node *
+fltval(Srcloc loc, double val, Type *t)
+{
+	Node *l, *n;
+
+	l = mkfloat(loc, val);
+	n = mkexpr(loc, Olit, l, NULL);
+	l->lit.type = t;
+	n->expr.type = t;
+	return n;
+}
+
 static int
 issmallconst(Node *dcl)
 {
@@ -271,6 +283,8 @@ fold(Node *n, int foldvar)
 	case Oneg:
 		if (getintlit(args[0], &a))
 			r = val(n->loc, -a, exprtype(n));
+		else if (exprop(args[0]) == Olit && args[0]->expr.args[0]->lit.littype == Lflt)
+			r = fltval(n->loc, -args[0]->expr.args[0]->lit.fltval, exprtype(n));
 		break;
 	case Obsl:
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-- 
2.43.0


From a7dbf87e0c7758df8f7d0bbba4a0d21d249eb425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 33/98] fix: a tuple is copied before it is taken apart into
 its elements

---
 mi/flatten.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 64afaf3..f5fb305 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -451,12 +451,13 @@ destructure(Flattenctx *s, Node *lhs, Node *rhs)
 	size_t i;
 
 	args = lhs->expr.args;
-	rhs = rval(s, rhs);
+	/* the elements must not change under the stores: (a, b) = (b, a) */
+	rhs = hold(s, rval(s, rhs));
 	for (i = 0; i < lhs->expr.nargs; i++) {
 		idx = mkintlit(rhs->loc, i);
 		idx->expr.type = mktype(rhs->loc, Tyuint64);
 		rv = mkexpr(rhs->loc, Otupget, rhs, idx, NULL);
-		rv->expr.type = lhs->expr.type;
+		rv->expr.type = exprtype(args[i]);
 
 		if (exprop(args[i]) == Otup) {
 			destructure(s, args[i], rv);
-- 
2.43.0


From cf6e6e047d57efd83433592a9462a8219af866a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 34/98] fix: named sequence types are indexed, sliced and
 checked like their base

---
 6/simp.c     | 8 ++++----
 mi/flatten.c | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index 59891a9..3b2f971 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -324,11 +324,11 @@ seqlen(Simp *s, Node *n, Type *ty)
 	Node *t, *r;
 
         r = NULL;
-	if (exprtype(n)->type == Tyslice) {
+	if (tybase(exprtype(n))->type == Tyslice) {
 		t = slicelen(s, n);
 		r = simpcast(s, t, ty);
-	} else if (exprtype(n)->type == Tyarray) {
-		t = exprtype(n)->asize;
+	} else if (tybase(exprtype(n))->type == Tyarray) {
+		t = tybase(exprtype(n))->asize;
                 if (t)
                     r = simpcast(s, t, ty);
 	}
@@ -515,7 +515,7 @@ slicebase(Simp *s, Node *n, Node *off)
 	/* safe: all types we allow here have a sub[0] that we want to grab */
 	if (off) {
 		off = ptrsized(s, rval(s, off, NULL));
-		sz = tysize(n->expr.type->sub[0]);
+		sz = tysize(ty->sub[0]);
 		v = mul(off, disp(n->loc, sz));
 		return add(u, v);
 	} else {
diff --git a/mi/flatten.c b/mi/flatten.c
index f5fb305..fb163ae 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -170,10 +170,10 @@ seqlen(Flattenctx *s, Node *n, Type *ty)
 
 	if (!ty)
 		ty = n->expr.type;
-	if (exprtype(n)->type == Tyarray) {
+	if (tybase(exprtype(n))->type == Tyarray) {
 		r = mkexpr(n->loc, Osllen, rval(s, n), NULL);
 		r->expr.type = ty;
-	} else if (exprtype(n)->type == Tyslice) {
+	} else if (tybase(exprtype(n))->type == Tyslice) {
 		r = mkexpr(n->loc, Osllen, rval(s, n), NULL);
 		r->expr.type = ty;
 	} else {
-- 
2.43.0


From 45aebbd6ac737c532daca2ab0c09cc1f8d51755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 35/98] fix: negative and very large indexes are out of bounds

---
 6/simp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index 3b2f971..0391cd3 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -416,7 +416,7 @@ ptrsized(Simp *s, Node *v)
 	if (size(v) == Ptrsz)
 		return v;
 	else if (size(v) < Ptrsz)
-		v = mkexpr(v->loc, Ozwiden, v, NULL);
+		v = mkexpr(v->loc, istysigned(tybase(exprtype(v))) ? Oswiden : Ozwiden, v, NULL);
 	else if (size(v) > Ptrsz)
 		v = mkexpr(v->loc, Otrunc, v, NULL);
 	v->expr.type = tyintptr;
@@ -490,7 +490,7 @@ idxaddr(Simp *s, Node *seq, Node *idx)
 	assert(exprtype(t)->type == Typtr);
 	u = rval(s, idx, NULL);
 	u = ptrsized(s, u);
-	checkidx(s, Olt, w, u);
+	checkidx(s, Oult, w, u);
 	sz = tysize(ty);
 	v = mul(u, disp(seq->loc, sz));
 	r = add(t, v);
-- 
2.43.0


From 65d60ad5a3eab0c7b2b8535eee2ec3c8a95673e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 36/98] fix: a slice may not end before it starts

---
 6/simp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index 0391cd3..f2208b4 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -700,8 +700,10 @@ simpslice(Simp *s, Node *n, Node *dst)
 	/* we can be storing through a pointer, in the case
 	 * of '*foo = bar'. */
 	max = seqlen(s, seq, tyword);
-	if (max)
-		checkidx(s, Ole, max, end);
+	if (max) {
+		checkidx(s, Oule, max, end);
+		checkidx(s, Oule, end, start);
+	}
 	if (tybase(exprtype(t))->type == Typtr) {
 		stbase = set(simpcast(s, t, mktyptr(t->loc, tyintptr)), base);
 		sz = addk(simpcast(s, t, mktyptr(t->loc, tyintptr)), Ptrsz);
-- 
2.43.0


From e0773485a88405445302c1347ddfe55753d55a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 37/98] fix: tuples in the initialisers of globals

---
 6/simp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/6/simp.c b/6/simp.c
index f2208b4..14fcc97 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -1593,6 +1593,7 @@ extractsub(Simp *s, Node *e)
 		break;
 	case Oarr:
 	case Ostruct:
+	case Otup:
 		for (i = 0; i < e->expr.nargs; i++)
 			extractsub(s, e->expr.args[i]);
 		break;
@@ -1622,6 +1623,7 @@ simpconstinit(Simp *s, Node *dcl)
 		switch (exprop(e)) {
 		case Oarr:
 		case Ostruct:
+		case Otup:
 		case Oslice:
 		case Oucon:
 		case Ovar:
-- 
2.43.0


From 2ae9ce16c2efdf11629d8f5a8694cf8cbd7a309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 38/98] fix: the length of an array is a value of its own, not
 its type's node

---
 6/simp.c     | 7 +++++--
 parse/fold.c | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index 14fcc97..6082c10 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -322,6 +322,7 @@ static Node *
 seqlen(Simp *s, Node *n, Type *ty)
 {
 	Node *t, *r;
+	vlong len;
 
         r = NULL;
 	if (tybase(exprtype(n))->type == Tyslice) {
@@ -329,8 +330,10 @@ seqlen(Simp *s, Node *n, Type *ty)
 		r = simpcast(s, t, ty);
 	} else if (tybase(exprtype(n))->type == Tyarray) {
 		t = tybase(exprtype(n))->asize;
-                if (t)
-                    r = simpcast(s, t, ty);
+		if (t && getintlit(t, &len)) {
+			r = mkintlit(n->loc, len);
+			r->expr.type = ty;
+		}
 	}
 	return r;
 }
diff --git a/parse/fold.c b/parse/fold.c
index b2067d0..590b9d1 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -316,8 +316,8 @@ fold(Node *n, int foldvar)
 		t = tybase(exprtype(args[0]));
 		/* we only fold lengths right now */
 		if (t->type == Tyarray && !strcmp(namestr(args[1]), "len")) {
-			r = t->asize;
-			r->expr.type = exprtype(n);
+			if (t->asize && getintlit(t->asize, &a))
+				r = val(n->loc, a, exprtype(n));
 		} else if (t->type == Tyunion && !strcmp(namestr(args[1]), "tag")) {
 			r = mkexpr(n->loc, Outag, args[0], NULL);
 			r->expr.type = mktype(n->loc, Tyint32);
-- 
2.43.0


From bddb3796d36bd2d86b70dc6fd488a510eb90f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 39/98] fix: count the register of an aggregate of floats when
 registers run out

---
 6/isel.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/6/isel.c b/6/isel.c
index d1c1c08..b8d49ce 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -616,6 +616,7 @@ sufficientregs(ArgType a, size_t nfloats, size_t nints)
 		int freg;
 	} needed[] = {
 	[ArgAggrI]   = {1, 0},
+	[ArgAggrF]   = {0, 1},
 	[ArgAggrFI]  = {1, 1},
 	[ArgAggrIF]  = {1, 1},
 	[ArgAggrII]  = {2, 0},
-- 
2.43.0


From c414ec6555055f5dec0e50fe0c48f2a074403f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 40/98] fix: sizes of bool and function values in type
 descriptions

---
 lib/std/introspect.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/introspect.myr b/lib/std/introspect.myr
index 5198aeb..a888edb 100644
--- a/lib/std/introspect.myr
+++ b/lib/std/introspect.myr
@@ -268,7 +268,7 @@ const typeinfo = {ti
 	match ti[0]
 	| Encnone:	-> [.size=0, .align=1]
 	| Encvoid:	-> [.size=0, .align=1]
-	| Encbool:	-> [.size=0, .align=1]
+	| Encbool:	-> [.size=1, .align=1]
 	| Encchar:	-> [.size=4, .align=4]
 
 	| Encint8:	-> [.size=1, .align=1]
@@ -289,7 +289,7 @@ const typeinfo = {ti
 
 	/* compound types */
 	| Encptr:	-> [.size=8, .align=8]
-	| Encfunc:	-> [.size=8, .align=8]
+	| Encfunc:	-> [.size=16, .align=8]
 	| Encslice:	-> [.size=16, .align=8]
 
 	| Encarray: 	-> gettypeinfo(ti[1:])
-- 
2.43.0


From ab083006c632a7291ef950bf96e3c0bed73f45e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 41/98] fix: integer literals of more than 32 bits in use files

---
 parse/parse.h |  2 +-
 parse/use.c   | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/parse/parse.h b/parse/parse.h
index e3b402f..b45118c 100644
--- a/parse/parse.h
+++ b/parse/parse.h
@@ -1,4 +1,4 @@
-#define Abiversion 23
+#define Abiversion 24
 
 typedef struct Srcloc Srcloc;
 typedef struct Tysubst Tysubst;
diff --git a/parse/use.c b/parse/use.c
index 5b01860..d75136d 100644
--- a/parse/use.c
+++ b/parse/use.c
@@ -528,7 +528,11 @@ pickle(FILE *fd, Node *n)
 		switch (n->lit.littype) {
 		case Lvoid:	break;
 		case Lchr:	wrint(fd, n->lit.chrval);	break;
-		case Lint:	wrint(fd, n->lit.intval);	break;
+		case Lint:
+			/* wrint only writes 32 bits */
+			wrint(fd, n->lit.intval >> 32);
+			wrint(fd, n->lit.intval);
+			break;
 		case Lflt:	wrflt(fd, n->lit.fltval);	break;
 		case Lstr:	wrlenstr(fd, n->lit.strval);	break;
 		case Llbl:	wrstr(fd, n->lit.lblval);	break;
@@ -651,7 +655,10 @@ unpickle(FILE *fd)
 		switch (n->lit.littype) {
 		case Lvoid:	break;
 		case Lchr:	n->lit.chrval = rdint(fd);	break;
-		case Lint:	n->lit.intval = rdint(fd);	break;
+		case Lint:
+			n->lit.intval = (uvlong)rdint(fd) << 32;
+			n->lit.intval |= rdint(fd) & 0xffffffff;
+			break;
 		case Lflt:	n->lit.fltval = rdflt(fd);	break;
 		case Lstr:	rdlenstr(fd, &n->lit.strval);	break;
 		case Llbl:	n->lit.lblval = rdstr(fd);	break;
-- 
2.43.0


From 4ebfa28044ad7b8b2cd10e9932e352b377c03e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 42/98] fix: range check literals of named types

---
 parse/infer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/infer.c b/parse/infer.c
index 68a0fd4..7a96d71 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2589,7 +2589,7 @@ checkrange(Node *n)
 	};
 
 	/* signed types */
-	t = type(n);
+	t = tybase(type(n));
 	if (t->type >= Tyint8 && t->type <= Tyint64) {
 		sval = n->lit.intval;
 		if (sval < svranges[t->type][0] || sval > svranges[t->type][1])
-- 
2.43.0


From 4ce8cbff34c1ad7678a8f68c9e210c8921d35791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 43/98] fix: byte 0xff in the source is not the end of the file

---
 parse/tok.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tok.c b/parse/tok.c
index 8b40dc2..9e89855 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -33,7 +33,7 @@ peekn(int n)
 	if (fidx + n >= fbufsz)
 		return End;
 	else
-		return fbuf[fidx + n];
+		return fbuf[fidx + n] & 0xff;
 }
 
 static int
-- 
2.43.0


From 264b923163ea1f8056c1aebf8ba6dd247bf37d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 44/98] fix: refuse malformed float literals and integers that
 do not fit 64 bits

---
 parse/tok.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse/tok.c b/parse/tok.c
index 9e89855..a7e9925 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -711,14 +711,17 @@ number(int base)
 		t = mktok(Tfloatlit);
 		t->id = strdupn(&fbuf[start], fidx - start);
 		t->fltval = strtod(buf, &endp);
-		if (endp == buf)
+		if (endp == buf || *endp)
 			lfatal(curloc, "%s is not a valid floating point value", buf);
 	} else {
 		t = mktok(Tintlit);
 		t->id = strdupn(&fbuf[start], fidx - start);
+		errno = 0;
 		t->intval = strtoull(buf, &endp, base);
 		if (endp == buf)
 			lfatal(curloc, "%s is not a valid integer value", buf);
+		if (errno == ERANGE)
+			lfatal(curloc, "integer %s is too large to represent", buf);
 			
 		/* check suffixes:
 		 *   u -> unsigned
-- 
2.43.0


From a1d94433c34063ab855e79d691adfcad746ff1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 45/98] fix: the size suffix 'b' on decimal, octal and binary
 literals

---
 parse/tok.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/tok.c b/parse/tok.c
index a7e9925..6301b3d 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -676,6 +676,9 @@ number(int base)
 	 */
 	maybefloat = !curtok || (curtok->type != Tdot);
 	for (c = peek(); isxdigit(c) || (maybefloat && c == '.') || c == '_'; c = peek()) {
+		/* outside of base 16, 'b' can only be the size suffix */
+		if (base != 16 && !isfloat && (c == 'b' || c == 'B'))
+			break;
 		next();
 		if (c == '_')
 			continue;
-- 
2.43.0


From 03bd803c6a43f3f84dad9b197a86e15f6c38e954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 46/98] fix: identifiers that do not fit the token buffer

---
 parse/tok.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse/tok.c b/parse/tok.c
index 6301b3d..d53ed4b 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -231,8 +231,10 @@ identstr(char *buf, size_t sz)
 	char c;
 
 	i = 0;
-	for (c = peek(); i < sz && identchar(c); c = peek()) {
+	for (c = peek(); identchar(c); c = peek()) {
 		next();
+		if (i == sz - 1)
+			lfatal(curloc, "identifier %.32s... too long", buf);
 		buf[i++] = c;
 	}
 	buf[i] = '\0';
-- 
2.43.0


From 860fa5ae4c8b1d3fe965c4490cace3dee9521eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 47/98] fix: literals near 2^64 are out of range for the narrow
 signed types

---
 parse/infer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/infer.c b/parse/infer.c
index 7a96d71..c322e0f 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2592,7 +2592,8 @@ checkrange(Node *n)
 	t = tybase(type(n));
 	if (t->type >= Tyint8 && t->type <= Tyint64) {
 		sval = n->lit.intval;
-		if (sval < svranges[t->type][0] || sval > svranges[t->type][1])
+		/* literals are unsigned: only int64 takes bit patterns with the top bit set */
+		if ((sval < 0 && t->type != Tyint64) || sval > svranges[t->type][1])
 			fatal(n, "literal value %lld out of range for type \"%s\"", sval, tystr(t));
 	} else if ((t->type >= Tybyte && t->type <= Tyuint64) || t->type == Tychar) {
 		uval = n->lit.intval;
-- 
2.43.0


From e1a9986a8b7334f4de41392c8e952d4f601ba1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:43 +0000
Subject: [PATCH 48/98] fix: float < and <= are false when an operand is a NaN

---
 6/isel.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index b8d49ce..8b5a36c 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -54,13 +54,14 @@ struct {
 	[Ouge] = {Icmp, Ijae, Isetae},
 	[Oult] = {Icmp, Ijb,  Isetb},
 	[Oule] = {Icmp, Ijbe, Isetbe},
-	/* float */
+	/* float: comis reports 'unordered' as below and equal, so only a and
+	 * ae are false for a NaN. < and <= swap their operands to use those. */
 	[Ofeq] = {Icomis, Ijz,  Isetz},
 	[Ofne] = {Icomis, Ijnz, Isetnz},
 	[Ofgt] = {Icomis, Ija,  Iseta},
 	[Ofge] = {Icomis, Ijae, Isetae},
-	[Oflt] = {Icomis, Ijb,  Isetb},
-	[Ofle] = {Icomis, Ijbe, Isetbe},
+	[Oflt] = {Icomis, Ija,  Iseta},
+	[Ofle] = {Icomis, Ijae, Isetae},
 };
 
 static Mode
@@ -330,6 +331,19 @@ inri(Isel *s, Loc *a)
 		return newr(s, a);
 }
 
+/* float < and <= are tested as > and >= with the operands swapped */
+static void
+fltswap(Op op, Loc **a, Loc **b)
+{
+	Loc *t;
+
+	if (op == Oflt || op == Ofle) {
+		t = *a;
+		*a = *b;
+		*b = t;
+	}
+}
+
 /* If we're testing equality, etc, it's a bit silly
  * to generate the test, store it to a bite, expand it
  * to the right width, and then test it again. Try to optimize
@@ -356,6 +370,7 @@ selcjmp(Isel *s, Node *n, Node **args)
 			b = selexpr(s, args[0]->expr.args[1]);
 		else
 			b = a;
+		fltswap(exprop(args[0]), &a, &b);
 		a = newr(s, a);
 	} else {
 		cond = Itest;
@@ -1044,6 +1059,7 @@ selexpr(Isel *s, Node *n)
 	case Oueq: case Oune: case Ougt: case Ouge: case Oult: case Oule:
 		a = selexpr(s, args[0]);
 		b = selexpr(s, args[1]);
+		fltswap(exprop(n), &a, &b);
 		a = newr(s, a);
 		c = locreg(ModeB);
 		r = locreg(mode(n));
-- 
2.43.0


From ccab30206a470a74c0abb5c8a0db3868e26e3181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:43 +0000
Subject: [PATCH 49/98] fix: flt32 to integer conversions read the operand as a
 flt64

---
 6/insns.def | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/6/insns.def b/6/insns.def
index cc80adf..a0d5e55 100644
--- a/6/insns.def
+++ b/6/insns.def
@@ -235,8 +235,8 @@ Insn(Imovs,
     Use(.l={1}),
     Def(.l={2}))
 Insn(Icvttsd2si,
-    "\tcvttsd2si%2t %x,%r\n",
-    "\tCVTTS%T2S%2T %X,%R\n",
+    "\tcvtts%1t2si%2t %x,%r\n",
+    "\tCVTTS%1T2S%2T %X,%R\n",
     Use(.l={1}),
     Def(.l={2}))
 Insn(Icvttsi2sd,
-- 
2.43.0


From 3a37e67e13156c62695659053e136f5c11c9434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:43 +0000
Subject: [PATCH 50/98] fix: conversions between floats and narrow integers,
 and to and from uint64

---
 6/simp.c | 89 +++++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 85 insertions(+), 4 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index 6082c10..d2e44aa 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -589,6 +589,89 @@ intconvert(Simp *s, Node *from, Type *to, int issigned)
 	return r;
 }
 
+static Node *
+binexpr(Op op, Node *a, Node *b, Type *ty)
+{
+	Node *n;
+
+	n = mkexpr(a->loc, op, a, b, NULL);
+	n->expr.type = ty;
+	return n;
+}
+
+static Node *
+unexpr(Op op, Node *a, Type *ty)
+{
+	Node *n;
+
+	n = mkexpr(a->loc, op, a, NULL);
+	n->expr.type = ty;
+	return n;
+}
+
+static Node *
+saved(Simp *s, Node *n)
+{
+	Node *t;
+
+	t = temp(s, n);
+	append(s, set(t, n));
+	return t;
+}
+
+/* The hardware only converts to and from signed words: narrow integers go
+ * through int64, and uint64 needs the top bit handled separately. */
+static Node *
+int2flt(Simp *s, Node *val, Type *to)
+{
+	Node *v, *k, *w, *a, *b;
+	Type *i64, *u64;
+
+	i64 = mktype(val->loc, Tyint64);
+	if (tybase(exprtype(val))->type != Tyuint64)
+		return unexpr(Oint2flt, intconvert(s, val, i64, istysigned(exprtype(val))), to);
+
+	/* halve values that have the top bit, keeping the bit shifted out
+	 * for rounding, and double the result */
+	u64 = mktype(val->loc, Tyuint64);
+	v = saved(s, intconvert(s, val, u64, 0));
+	k = saved(s, binexpr(Obsr, v, disp(val->loc, 63), u64));
+	w = binexpr(Obor, binexpr(Obsr, v, k, u64), binexpr(Oband, v, k, u64), i64);
+	a = unexpr(Oint2flt, w, to);
+	b = unexpr(Oint2flt, addk(k, 1), to);
+	return binexpr(Ofmul, a, b, to);
+}
+
+static Node *
+flt2int(Simp *s, Node *val, Type *to)
+{
+	Node *v, *k, *top, *r;
+	Type *ft, *i64, *u64;
+
+	i64 = mktype(val->loc, Tyint64);
+	v = rval(s, val, NULL);
+	if (tybase(to)->type != Tyuint64) {
+		r = unexpr(Oflt2int, v, i64);
+		if (tysize(to) < 8)
+			r = unexpr(Otrunc, r, to);
+		r->expr.type = to;
+		return r;
+	}
+
+	/* values from 2^63 are converted less 2^63, which is then put back */
+	u64 = mktype(val->loc, Tyuint64);
+	ft = exprtype(val);
+	v = saved(s, v);
+	top = mkfloat(val->loc, 9223372036854775808.0);
+	top->lit.type = ft;
+	top = saved(s, simpblob(s, unexpr(Olit, top, ft)));
+	k = binexpr(Ofge, v, top, mktype(val->loc, Tybool));
+	k = saved(s, unexpr(Ozwiden, k, u64));
+	r = binexpr(Ofmul, unexpr(Oint2flt, k, ft), top, ft);
+	r = unexpr(Oflt2int, binexpr(Ofsub, v, r, ft), u64);
+	return binexpr(Obxor, r, binexpr(Obsl, k, disp(val->loc, 63), u64), to);
+}
+
 static Node *
 simpcast(Simp *s, Node *val, Type *to)
 {
@@ -639,8 +722,7 @@ simpcast(Simp *s, Node *val, Type *to)
 			if (tybase(to)->type == Typtr)
 				fatal(val, "bad cast from %s to %s",
 						tystr(exprtype(val)), tystr(to));
-			r = mkexpr(val->loc, Oflt2int, rval(s, val, NULL), NULL);
-			r->expr.type = to;
+			r = flt2int(s, val, to);
 			break;
 		default:
 			fatal(val, "bad cast from %s to %s",
@@ -652,8 +734,7 @@ simpcast(Simp *s, Node *val, Type *to)
 		case Tyint8: case Tyint16: case Tyint32: case Tyint64:
 		case Tyuint8: case Tyuint16: case Tyuint32: case Tyuint64:
 		case Tyint: case Tyuint: case Tychar: case Tybyte:
-			r = mkexpr(val->loc, Oint2flt, rval(s, val, NULL), NULL);
-			r->expr.type = to;
+			r = int2flt(s, val, to);
 			break;
 		case Tyflt32: case Tyflt64:
 			r = mkexpr(val->loc, Oflt2flt, rval(s, val, NULL), NULL);
-- 
2.43.0


From 5e9b3d352f9a24563361c062d207232464590d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 51/98] fix: sizeof inside a slice expression of a generic

---
 parse/specialize.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/specialize.c b/parse/specialize.c
index 6e8c6fd..884d1e2 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -437,7 +437,8 @@ specializenode(Node *n, Tysubst *tsmap)
 		r->decl.isgeneric = n->decl.isgeneric;
 		r->decl.isextern = n->decl.isextern;
 		r->decl.isglobl = n->decl.isglobl;
-		if (curstab())
+		/* the type of a sizeof is no declaration, and may be seen twice, as in [sizeof(t)][:] */
+		if (curstab() && declname(r)[0] != '.')
 			putdcl(curstab(), r);
 
 		/* init */
-- 
2.43.0


From df00bcad5b0d87762ac484fd4df9e1f42976de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 52/98] fix: constants as elements of aggregate initializers

---
 parse/fold.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parse/fold.c b/parse/fold.c
index 590b9d1..7dd05ea 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -218,6 +218,12 @@ fold(Node *n, int foldvar)
 	case Ovar:
 		if (foldvar && issmallconst(decls[n->expr.did]))
 			r = fold(decls[n->expr.did]->decl.init, foldvar);
+		/* the initializer is shared: our index can't go into it */
+		if (r && n->expr.idx && exprop(r) == Olit) {
+			t = exprtype(r);
+			r = mkexpr(n->loc, Olit, r->expr.args[0], NULL);
+			r->expr.type = t;
+		}
 		break;
 	case Oadd:
 		/* x + 0 = 0 */
-- 
2.43.0


From 61bc1644ab5465f9ba7c42c7f7d80f220bef8cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 53/98] fix: initializers with constants made from functions

---
 6/blob.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/6/blob.c b/6/blob.c
index 48d51fa..2adeede 100644
--- a/6/blob.c
+++ b/6/blob.c
@@ -271,9 +271,21 @@ static size_t
 blobvar(Blob *seq, Htab *strtab, Node *var, Type *ty)
 {
 	Node *dcl;
+	Stab *st;
 	Ty tt;
 
 	dcl = decls[var->expr.did];
+	/* the value of a constant made from a function is that function */
+	while (dcl->decl.isconst && dcl->decl.init && exprop(dcl->decl.init) == Ovar) {
+		var = dcl->decl.init;
+		st = file.globls;
+		if (var->expr.args[0]->name.ns)
+			st = getns(var->expr.args[0]->name.ns);
+		if (!dcl->decl.isimport)
+			dcl = decls[var->expr.did];
+		else if (!st || !(dcl = getdcl(st, var->expr.args[0])))
+			fatal(var, "missing declaration of %s", namestr(var->expr.args[0]));
+	}
 	tt = tybase(ty)->type;
 	if ((tt != Tyfunc && tt != Tycode)|| !dcl->decl.isglobl)
 		fatal(var, "non-constant initializer %s", namestr(var->expr.args[0]));
-- 
2.43.0


From 6b316aa9ddf1f3b68b722b6e7c0e0c9890c819a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 54/98] fix: export what initializers in generics, constants
 and function constants refer to

---
 parse/export.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/parse/export.c b/parse/export.c
index fb7b05f..56abf3b 100644
--- a/parse/export.c
+++ b/parse/export.c
@@ -112,6 +112,15 @@ tagtype(Stab *st, Type *t, int ingeneric, int hidelocal)
 	}
 }
 
+/* a constant with some function as its value, which isn't a function itself */
+static int
+isfnconst(Node *n)
+{
+	return n->decl.isglobl && n->decl.isconst && n->decl.init
+		&& tybase(n->decl.type)->type == Tyfunc
+		&& exprop(n->decl.init) != Olit;
+}
+
 int
 isexportval(Node *n)
 {
@@ -120,6 +129,9 @@ isexportval(Node *n)
 	/* we want to inline small values, which means we need to export them */
 	if (istyprimitive(n->decl.type))
 		return 1;
+	/* importers need to tell these from functions */
+	if (isfnconst(n))
+		return 1;
 	return 0;
 }
 
@@ -187,8 +199,12 @@ tagnode(Stab *st, Node *n, int ingeneric, int hidelocal)
 		if (hidelocal && n->decl.ispkglocal)
 			n->decl.vis = Vishidden;
 		n->decl.isexportval = isexportval(n);
+		/* constants an initializer refers to aren't visible to importers */
+		if (n->decl.isexportval && n->decl.isconst && !n->decl.isgeneric)
+			n->decl.init = fold(n->decl.init, 1);
 		if (n->decl.isexportval || ingeneric)
-			tagnode(st, n->decl.init, n->decl.isgeneric, hidelocal);
+			tagnode(st, n->decl.init, n->decl.isgeneric || isfnconst(n)
+				|| (ingeneric && !n->decl.isglobl), hidelocal);
 		break;
 	case Nfunc:
 		tagtype(st, n->func.type, ingeneric, hidelocal);
-- 
2.43.0


From ad3fa0e6cd017e09c95c5f597db80152e688053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 55/98] fix: constants made from functions of units that are
 not used directly

---
 6/blob.c       | 14 +-------------
 parse/export.c | 32 ++++++++++++++++++++++++++++++++
 parse/parse.h  |  1 +
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/6/blob.c b/6/blob.c
index 2adeede..0f05d10 100644
--- a/6/blob.c
+++ b/6/blob.c
@@ -271,21 +271,9 @@ static size_t
 blobvar(Blob *seq, Htab *strtab, Node *var, Type *ty)
 {
 	Node *dcl;
-	Stab *st;
 	Ty tt;
 
-	dcl = decls[var->expr.did];
-	/* the value of a constant made from a function is that function */
-	while (dcl->decl.isconst && dcl->decl.init && exprop(dcl->decl.init) == Ovar) {
-		var = dcl->decl.init;
-		st = file.globls;
-		if (var->expr.args[0]->name.ns)
-			st = getns(var->expr.args[0]->name.ns);
-		if (!dcl->decl.isimport)
-			dcl = decls[var->expr.did];
-		else if (!st || !(dcl = getdcl(st, var->expr.args[0])))
-			fatal(var, "missing declaration of %s", namestr(var->expr.args[0]));
-	}
+	dcl = fnconstval(decls[var->expr.did]);
 	tt = tybase(ty)->type;
 	if ((tt != Tyfunc && tt != Tycode)|| !dcl->decl.isglobl)
 		fatal(var, "non-constant initializer %s", namestr(var->expr.args[0]));
diff --git a/parse/export.c b/parse/export.c
index 56abf3b..161cca5 100644
--- a/parse/export.c
+++ b/parse/export.c
@@ -121,6 +121,33 @@ isfnconst(Node *n)
 		&& exprop(n->decl.init) != Olit;
 }
 
+/* the value of a constant made from a function is that function */
+Node *
+fnconstval(Node *n)
+{
+	Node *name, *d;
+	Stab *st;
+
+	while (isfnconst(n) && exprop(n->decl.init) == Ovar) {
+		if (!n->decl.isimport) {
+			n = decls[n->decl.init->expr.did];
+			continue;
+		}
+		/* resolved when exported; it may be from a unit that's not used here */
+		name = n->decl.init->expr.args[0];
+		st = name->name.ns ? getns(name->name.ns) : file.globls;
+		d = st ? getdcl(st, name) : NULL;
+		if (!d) {
+			d = mkdecl(n->loc, name, n->decl.type);
+			d->decl.isglobl = 1;
+			d->decl.isconst = 1;
+			d->decl.isimport = 1;
+		}
+		n = d;
+	}
+	return n;
+}
+
 int
 isexportval(Node *n)
 {
@@ -202,6 +229,11 @@ tagnode(Stab *st, Node *n, int ingeneric, int hidelocal)
 		/* constants an initializer refers to aren't visible to importers */
 		if (n->decl.isexportval && n->decl.isconst && !n->decl.isgeneric)
 			n->decl.init = fold(n->decl.init, 1);
+		if (isfnconst(n) && exprop(n->decl.init) == Ovar) {
+			d = fnconstval(n);
+			n->decl.init->expr.args[0] = d->decl.name;
+			n->decl.init->expr.did = d->decl.did;
+		}
 		if (n->decl.isexportval || ingeneric)
 			tagnode(st, n->decl.init, n->decl.isgeneric || isfnconst(n)
 				|| (ingeneric && !n->decl.isglobl), hidelocal);
diff --git a/parse/parse.h b/parse/parse.h
index b45118c..4c28431 100644
--- a/parse/parse.h
+++ b/parse/parse.h
@@ -567,6 +567,7 @@ int loaduse(char *path, FILE *f, Stab *into, Vis vis);
 void readuse(Node *use, Stab *into, Vis vis);
 void writeuse(FILE *fd);
 void tagexports(int hidelocal);
+Node *fnconstval(Node *n);
 void tagreflect(Type *t);
 void addextlibs(char **libs, size_t nlibs);
 
-- 
2.43.0


From a028c47b3b0971e24877d06ca326a0cf70d45c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 56/98] fix: constraints on types with impls for pointers and
 arrays

---
 parse/infer.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index c322e0f..b614307 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -844,14 +844,14 @@ tymatchrank(Type *pat, Type *to)
 		}
 		break;
 	case Tyarray:
-		/* unsized arrays are ok */
-		if (pat->asize && to->asize) {
-			if (!!litvaleq(pat->asize->expr.args[0], to->asize->expr.args[0]))
-				return -1;
-		} else if (pat->asize != to->asize) {
+		if (!pat->asize != !to->asize)
 			return -1;
-		}
-		else return tymatchrank(pat->sub[0], to->sub[0]);
+		if (arraysz(pat->asize) != arraysz(to->asize))
+			return -1;
+		q = tymatchrank(pat->sub[0], to->sub[0]);
+		if (q < 0)
+			return -1;
+		match = q + 1;
 		break;
 	default:
 		if (pat->nsub != to->nsub)
@@ -906,7 +906,7 @@ tryconstrain(Type *base, Trait *tr, int update)
 			}
 			if (!ty->sub || ty->nsub != 1)
 				break;
-			ty = ty->sub[0];
+			ty = tysearch(ty->sub[0]);
 			tm = tm->sub[ty->type];
 			if (!tm)
 				break;
@@ -953,10 +953,12 @@ traitsfor(Type *base, Bitset *dst)
 				if (tymatchrank(tm->filter[i], ty) >= 0)
 					bsput(dst, tm->filtertr[i]->uid);
 			}
-			if (!tm->sub[ty->type] || ty->nsub != 1)
+			if (!ty->sub || ty->nsub != 1)
 				break;
+			ty = tysearch(ty->sub[0]);
 			tm = tm->sub[ty->type];
-			ty = ty->sub[0];
+			if (!tm)
+				break;
 		}
 		if (base->type != Tyname)
 			break;
-- 
2.43.0


From c8b4dd5d0ed0da4f1cea49e1604c4b9fda0058e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 57/98] fix: methods of impls refer to the names of their own
 unit

---
 parse/export.c     | 3 +++
 parse/specialize.c | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/parse/export.c b/parse/export.c
index 161cca5..1a85e68 100644
--- a/parse/export.c
+++ b/parse/export.c
@@ -214,6 +214,9 @@ tagnode(Stab *st, Node *n, int ingeneric, int hidelocal)
 				d->decl.vis = Vishidden;
 				tagnode(st, d, ingeneric, hidelocal);
 			}
+			/* importers may specialize this in another namespace */
+			if (d->decl.isglobl || d->decl.isgeneric)
+				n->expr.args[0] = d->decl.name;
 		}
 		break;
 	case Nlit:
diff --git a/parse/specialize.c b/parse/specialize.c
index 884d1e2..adc30ba 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -567,8 +567,9 @@ specializedcl(Node *gnode, Type *param, Type *to, Node **name)
 	if (debugopt['S'])
 		printf("specializing [%d]%s => %s\n", g->loc.line,
 			namestr(g->decl.name), namestr(n));
-	/* namespaced names need to be looked up in context. */
-	pushstab(st);
+	/* namespaced names need to be looked up in context; impls
+	 * don't have to be in the namespace of their trait */
+	pushstab(gnode->decl.trait ? file.globls : st);
 
 	/* specialize */
 	tsmap = mksubst();
-- 
2.43.0


From a5c4d1f5cc2ab4d94efbf1a6414ddffaab787ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 58/98] fix: merged use files keep hidden names hidden

---
 parse/export.c | 11 +++++++++--
 parse/stab.c   |  2 ++
 parse/use.c    |  6 +++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/parse/export.c b/parse/export.c
index 1a85e68..d49a82d 100644
--- a/parse/export.c
+++ b/parse/export.c
@@ -18,6 +18,9 @@
 static void tagnode(Stab *st, Node *n, int ingeneric, int hidelocal);
 static void tagtype(Stab *st, Type *t, int ingeneric, int hidelocal);
 
+/* Are we in an imported decl? The names in these aren't resolved. */
+static int inimport;
+
 void
 tagreflect(Type *t)
 {
@@ -167,6 +170,7 @@ tagnode(Stab *st, Node *n, int ingeneric, int hidelocal)
 {
 	size_t i;
 	Node *d;
+	int wasimport;
 
 	if (!n)
 		return;
@@ -208,7 +212,7 @@ tagnode(Stab *st, Node *n, int ingeneric, int hidelocal)
 		for (i = 0; i < n->expr.nargs; i++)
 			tagnode(st, n->expr.args[i], ingeneric, hidelocal);
 		/* generics need to have the decls they refer to exported. */
-		if (ingeneric && exprop(n) == Ovar) {
+		if (ingeneric && !inimport && exprop(n) == Ovar) {
 			d = decls[n->expr.did];
 			if (d->decl.isglobl && d->decl.vis == Visintern) {
 				d->decl.vis = Vishidden;
@@ -237,9 +241,12 @@ tagnode(Stab *st, Node *n, int ingeneric, int hidelocal)
 			n->decl.init->expr.args[0] = d->decl.name;
 			n->decl.init->expr.did = d->decl.did;
 		}
+		wasimport = inimport;
+		inimport |= n->decl.isimport;
 		if (n->decl.isexportval || ingeneric)
 			tagnode(st, n->decl.init, n->decl.isgeneric || isfnconst(n)
 				|| (ingeneric && !n->decl.isglobl), hidelocal);
+		inimport = wasimport;
 		break;
 	case Nfunc:
 		tagtype(st, n->func.type, ingeneric, hidelocal);
@@ -291,7 +298,7 @@ tagexports(int hidelocal)
 	k = htkeys(st->dcl, &n);
 	for (i = 0; i < n; i++) {
 		s = getdcl(st, k[i]);
-		if (s->decl.vis == Visexport)
+		if (s->decl.vis == Visexport || (s->decl.isimport && s->decl.vis == Vishidden))
 			tagnode(st, s, 0, hidelocal);
 	}
 	free(k);
diff --git a/parse/stab.c b/parse/stab.c
index 67fbeef..8e0b515 100644
--- a/parse/stab.c
+++ b/parse/stab.c
@@ -349,6 +349,8 @@ mergedecl(Node *old, Node *new)
 
 	if (old->decl.isimport && new->decl.isimport) {
 		old->decl.ishidden = old->decl.ishidden && new->decl.ishidden;
+		if (old->decl.vis == Vishidden)
+			old->decl.vis = new->decl.vis;
 		return 1;
 	}
 	if (old->decl.isextern || new->decl.isextern) {
diff --git a/parse/use.c b/parse/use.c
index d75136d..e52e74d 100644
--- a/parse/use.c
+++ b/parse/use.c
@@ -1005,7 +1005,11 @@ foundextlib:
 		case 'G':
 		case 'D':
 			dcl = rdsym(f, NULL);
-			dcl->decl.vis = vis;
+			/* merging doesn't make anything more visible */
+			if (dcl->decl.ishidden && vis == Visexport)
+				dcl->decl.vis = Vishidden;
+			else
+				dcl->decl.vis = vis;
 			dcl->decl.isglobl = 1;
 			putdcl(s, dcl);
 			break;
-- 
2.43.0


From de1b79ddeb89cef0c650f6433a1dc4e9d9bdeb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:15 +0000
Subject: [PATCH 59/98] fix: check the types of __init__ and __fini__

---
 parse/infer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index b614307..0291410 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2696,8 +2696,9 @@ typesub(Node *n, int noerr)
 			if (!maincompatible(tybase(decltype(n))))
 				fatal(n, "main must be (->void) or (byte[:][:] -> void), got %s",
 						tystr(decltype(n)));
-		name = declname(n);
-		if (streq(name, "__init__") || streq(name, "__fini__"))
+		/* the names of these are mangled by the parser */
+		name = n->decl.isinit ? "__init__" : "__fini__";
+		if (n->decl.isinit || n->decl.isfini)
 			if (!initcompatible(tybase(decltype(n))))
 				fatal(n, "%s must be (->void), got %s", name, tystr(decltype(n)));
 		popenv(n->decl.env);
-- 
2.43.0


From 62c084e3ccd92941fd590c901d956cbfe74eb164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:00 +0000
Subject: [PATCH 60/98] fix: compiling more than one file at a time left all
 but the first empty

---
 6/main.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/6/main.c b/6/main.c
index 2765ffe..eb67ccf 100644
--- a/6/main.c
+++ b/6/main.c
@@ -160,6 +160,25 @@ gentempfile(char *buf, size_t bufsz, char *path, char *suffix)
 	return buf;
 }
 
+/* Returns true in the process which compiles the next file */
+static int
+forkfile(void)
+{
+	int pid, status;
+
+	pid = fork();
+	if (pid == -1)
+		die("couldn't fork");
+	if (pid == 0)
+		return 1;
+	waitpid(pid, &status, 0);
+	if (WIFEXITED(status) && WEXITSTATUS(status) != 0)
+		exit(WEXITSTATUS(status));
+	if (!WIFEXITED(status))
+		die("compiler died");
+	return 0;
+}
+
 static int
 hasmain(void)
 {
@@ -276,12 +295,15 @@ main(int argc, char **argv)
 		outfile = NULL;
 
 	for (i = 0; i < ctx.nargs; i++) {
+		/* every file starts from a clean state */
+		if (i + 1 < ctx.nargs && !forkfile())
+			continue;
 		if (outfile)
 			localincpath = dirname(outfile);
 		else
 			localincpath = dirname(ctx.args[i]);
 
-		initfile(&file, ctx.args[0]);
+		initfile(&file, ctx.args[i]);
 		tokinit(ctx.args[i]);
 		yyparse();
 
@@ -314,6 +336,7 @@ main(int argc, char **argv)
 		assemble(buf, ctx.args[i]);
 
 		free(localincpath);
+		return 0;
 	}
 
 	return 0;
-- 
2.43.0


From e950c298043ade8072dfb49561c3001f2f8ad074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 61/98] fix: a '.' or '+' in a directory's name is no suffix of
 the output

---
 6/main.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/6/main.c b/6/main.c
index eb67ccf..45d9791 100644
--- a/6/main.c
+++ b/6/main.c
@@ -56,10 +56,22 @@ usage(char *prog)
 	printf("\t\tu: log type unifications\n");
 }
 
+static char *
+basename(char *path)
+{
+	char *p;
+
+	p = strrchr(path, '/');
+	if (p)
+		return p + 1;
+	else
+		return path;
+}
+
 static void
 swapout(char* buf, size_t sz, char* suf) {
 	char* psuffix;
-	psuffix = strrchr(outfile, '.');
+	psuffix = strrchr(basename(outfile), '.');
 	if (psuffix != NULL)
 		swapsuffix(buf, sz, outfile, psuffix, suf);
 	else
@@ -94,7 +106,7 @@ assemble(char *asmsrc, char *path)
 	if (outfile != NULL)
 		strncpy(objfile, outfile, sizeof(objfile));
 	else {
-		psuffix = strrchr(path, '+');
+		psuffix = strrchr(basename(path), '+');
 		i = 0;
 		if (objdir)
 			i = bprintf(objfile, sizeof objfile, "%s/", objdir);
@@ -205,7 +217,7 @@ genuse(char *path)
 	if (outfile != NULL)
 		swapout(buf, 1024, ".use");
 	else {
-		psuffix = strrchr(path, '+');
+		psuffix = strrchr(basename(path), '+');
 		i = 0;
 		if (objdir)
 			i = bprintf(buf, sizeof buf, "%s/", objdir);
-- 
2.43.0


From 83d7462d68923d6a8ffe439dc829d8994b083874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 62/98] fix: inputs with short names and no suffix could not be
 compiled

---
 util/util.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/util/util.c b/util/util.c
index cc711ed..9962786 100644
--- a/util/util.c
+++ b/util/util.c
@@ -57,8 +57,6 @@ swapsuffix(char *buf, size_t sz, char *s, char *suf, char *swap)
 	suflen = strlen(suf);
 	swaplen = strlen(swap);
 
-	if (slen < suflen)
-		return NULL;
 	if (slen + swaplen >= sz)
 		die("swapsuffix: buf too small");
 
-- 
2.43.0


From 2eb4e3fa92e2d54be649b7bb548f515069cc1282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 63/98] fix: impls for tuples and functions matched those of
 another length

---
 parse/infer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/infer.c b/parse/infer.c
index 0291410..904020f 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -855,7 +855,7 @@ tymatchrank(Type *pat, Type *to)
 		break;
 	default:
 		if (pat->nsub != to->nsub)
-			break;
+			return -1;
 		if (pat->type == to->type)
 			match = 1;
 		for (i = 0; i < pat->nsub; i++) {
-- 
2.43.0


From 8b4d501e47701a7621031c24502be4aa4556b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 64/98] fix: specializations for different types could share a
 name

---
 parse/type.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/parse/type.c b/parse/type.c
index 31a9d35..31b91ed 100644
--- a/parse/type.c
+++ b/parse/type.c
@@ -1005,25 +1005,19 @@ tyidfmt(char *buf, size_t sz, Type *ty)
 		p += tyidfmt(p, end - p, ty->sub[0]);
 		break;
 	case Tycode:
-		p += bprintf(p, end - p, "$F");
-		for (i = 0; i < ty->nsub; i++) {
+		p += bprintf(p, end - p, "$F%zd", ty->nsub);
+		for (i = 0; i < ty->nsub; i++)
 			p += tyidfmt(p, end - p, ty->sub[i]);
-			p += bprintf(p, end - p, "$");
-		}
 		break;
 	case Tyfunc:
-		p += bprintf(p, end - p, "$f");
-		for (i = 0; i < ty->nsub; i++) {
+		p += bprintf(p, end - p, "$f%zd", ty->nsub);
+		for (i = 0; i < ty->nsub; i++)
 			p += tyidfmt(p, end - p, ty->sub[i]);
-			p += bprintf(p, end - p, "$");
-		}
 		break;
 	case Tytuple:
-		p += bprintf(p, end - p, "$e");
-		for (i = 0; i < ty->nsub; i++) {
+		p += bprintf(p, end - p, "$e%zd", ty->nsub);
+		for (i = 0; i < ty->nsub; i++)
 			p += tyidfmt(p, end - p, ty->sub[i]);
-		}
-		p += bprintf(p, end - p, "$");
 		break;
 	case Tystruct:	p += bprintf(p, end - p, "$t%lld", ty->tid);	break;
 	case Tyunion:	p += bprintf(p, end - p, "$u%lld", ty->tid);	break;
@@ -1033,13 +1027,16 @@ tyidfmt(char *buf, size_t sz, Type *ty)
 		p += bprintf(p, end - p, "$n");
 		if (ty->name->name.ns)
 			p += bprintf(p, end - p, "%s", ty->name->name.ns);
-		p += bprintf(p, end - p, "$%s", ty->name->name.name);
-		if (ty->arg)
+		p += bprintf(p, end - p, "$%s$", ty->name->name.name);
+		if (ty->narg) {
+			p += bprintf(p, end - p, "%zd", ty->narg);
 			for (i = 0; i < ty->narg; i++)
 				p += tyidfmt(p, end - p, ty->arg[i]);
-		else if (ty->gparam)
+		} else if (ty->ngparam) {
+			p += bprintf(p, end - p, "%zd", ty->ngparam);
 			for (i = 0; i < ty->ngparam; i++)
 				p += tyidfmt(p, end - p, ty->gparam[i]);
+		}
 		break;
 	case Tygeneric:
 		break;
-- 
2.43.0


From ede8e98e3b41dd22a3fb07cb43cf6e3e8ba67dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 65/98] fix: names of specializations for long types were cut
 off

---
 parse/specialize.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/parse/specialize.c b/parse/specialize.c
index adc30ba..4d62fc4 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -475,23 +475,30 @@ specializenode(Node *n, Tysubst *tsmap)
 Node *
 genericname(Node *n, Type *param, Type *t)
 {
-	char buf[1024];
-	char *p;
-	char *end;
+	char *buf, *p, *end;
+	size_t sz;
 	Node *name;
 
 	if (!n->decl.isgeneric)
 		return n->decl.name;
-	p = buf;
-	end = buf + sizeof buf;
-	p += bprintf(p, end - p, "%s", n->decl.name->name.name);
-	if (param) {
+	/* a name that was cut off would be shared with other types */
+	for (sz = 1024; ; sz *= 2) {
+		buf = xalloc(sz);
+		p = buf;
+		end = buf + sz;
+		p += bprintf(p, end - p, "%s", n->decl.name->name.name);
+		if (param) {
+			p += bprintf(p, end - p, "$");
+			p += tyidfmt(p, end - p, param);
+		}
 		p += bprintf(p, end - p, "$");
-		p += tyidfmt(p, end - p, param);
+		p += tyidfmt(p, end - p, t);
+		if (p != end)
+			break;
+		free(buf);
 	}
-	p += bprintf(p, end - p, "$");
-	p += tyidfmt(p, end - p, t);
 	name = mkname(n->loc, buf);
+	free(buf);
 	if (n->decl.name->name.ns)
 		setns(name, n->decl.name->name.ns);
 	return name;
-- 
2.43.0


From 7a3f152380d9ee3e8ed0f589769a8fcf5d9c23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:19 +0000
Subject: [PATCH 66/98] fix: type parameters of different names were taken for
 one type

A generic function could return a value of one of its type parameters as
one of another. libmath did it by accident where it mixed its exponents
and significands.
---
 lib/math/exp-impl.myr    | 6 +++---
 lib/math/log-impl.myr    | 6 +++---
 lib/math/pown-impl.myr   | 4 ++--
 lib/math/scale2-impl.myr | 6 +++---
 parse/infer.c            | 2 ++
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/lib/math/exp-impl.myr b/lib/math/exp-impl.myr
index 877abeb..b41805d 100644
--- a/lib/math/exp-impl.myr
+++ b/lib/math/exp-impl.myr
@@ -240,7 +240,7 @@ generic expgen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating,std.equata
 	   exact, without need for an FMA. R1 + R2 will approximate
 	   (very well) f reduced into [ -ln(2)/64, ln(2)/64 ]
 	 */
-	if std.abs(N) >= (1 << d.nabs)
+	if std.abs(N) >= (1 << (d.nabs : @i))
 		R1 = (x - (N1 : @f) * d.frombits(d.L1)) - ((N2 : @f) * d.frombits(d.L1))
 	else
 		R1 = x - (N : @f) * d.frombits(d.L1)
@@ -346,7 +346,7 @@ generic expm1gen = {x : @f, d : fltdesc(@f, @u, @i) :: \
 	   As in the exp case, R1 + R2 very well approximates f
 	   reduced into [ -ln(2)/64, ln(2)/64 ]
 	 */
-	if std.abs(N) >= (1 << d.nabs)
+	if std.abs(N) >= (1 << (d.nabs : @i))
 		R1 = (x - (N1 : @f) * d.frombits(d.L1)) - ((N2 : @f) * d.frombits(d.L1))
 	else
 		R1 = x - (N : @f) * d.frombits(d.L1)
@@ -373,7 +373,7 @@ generic expm1gen = {x : @f, d : fltdesc(@f, @u, @i) :: \
 	   underflow flag when not technically required. We currently
 	   do not care about such flags, so that logic is omitted.
 	 */
-	if M >= d.precision
+	if M >= (d.precision : @i)
 		-> scale2(S_hi + (S * P + (S_lo - scale2(1.0, -M))), M)
 	elif M <= -8
 		-> scale2(S_hi + (S * P + S_lo), M) - (1.0 : @f)
diff --git a/lib/math/log-impl.myr b/lib/math/log-impl.myr
index f2ff68e..4f4a1f2 100644
--- a/lib/math/log-impl.myr
+++ b/lib/math/log-impl.myr
@@ -431,7 +431,7 @@ generic loggen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating @f, numeri
 		var first_1 = find_first1_64((s : uint64), (d.precision : int64))
 		var offset = (d.precision : @u) - 1 - (first_1 : @u)
 		s = s << offset
-		e = d.emin - offset
+		e = d.emin - (offset : @i)
 	;;
 
 	m = e
@@ -494,7 +494,7 @@ generic log1pgen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating @f, nume
 	   example: 1 + x might be infinity).
 	 */
 	var Y, m, F, f
-	if e > d.T3exp
+	if e > (d.T3exp : @i)
 		Y = x
 	else
 		Y = (1.0 : @f) + x
@@ -520,7 +520,7 @@ generic log1pgen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating @f, nume
 	 */
 	if m <= -2
 		f = Y - F
-	elif m <= d.precision - 1
+	elif m <= (d.precision : @i) - 1
 		f = (d.assem(false, -m, 0) - F) + scale2(x, -m)
 	else
 		f = (scale2(x, -m) - F) + d.assem(false, -m, 0)
diff --git a/lib/math/pown-impl.myr b/lib/math/pown-impl.myr
index 6dfec19..b7511a2 100644
--- a/lib/math/pown-impl.myr
+++ b/lib/math/pown-impl.myr
@@ -365,13 +365,13 @@ generic rootngen = {x : @f, q : @u, d : fltdesc(@f, @u, @i) :: numeric,floating,
 	(G1, G2) = d.split_mul(ln_xs_hi, ln_xs_lo, qinv_hi, qinv_lo)
 
 	var E : @i
-	if q > std.abs(xe)
+	if q > (std.abs(xe) : @u)
 		/* Don't cast q to @i unless we're sure it's in small range */
 		E = 0
 	else
 		E = xe / (q : @i)
 	;;
-	var qpsi = xe - q * E
+	var qpsi = xe - (q : @i) * E
 	var psi_hi = (qpsi : @f) / qf
 	var psi_lo = -math.fma(psi_hi, qf, -(qpsi : @f)) / qf
 	var log2_hi, log2_lo
diff --git a/lib/math/scale2-impl.myr b/lib/math/scale2-impl.myr
index f75aac8..77a1048 100644
--- a/lib/math/scale2-impl.myr
+++ b/lib/math/scale2-impl.myr
@@ -36,12 +36,12 @@ generic scale2gen = {n : bool, e : @i, s : @u, emin : @i, emax : @i, p : @u, m :
 		var sprime = s
 		var eprime = e
 		if e < emin
-			sprime = s >> (-m)
+			sprime = s >> (-m : @u)
 			if need_round_away(0, (s : uint64), (-m : int64))
 				sprime++
 			;;
 			eprime = emin - 1
-		elif e + m < emin - p - 2
+		elif e + m < emin - (p : @i) - 2
 			sprime = 0
 			eprime = emin - 1
 		elif e + m < emin
@@ -64,7 +64,7 @@ generic scale2gen = {n : bool, e : @i, s : @u, emin : @i, emax : @i, p : @u, m :
 			m -= (shift : @i)
 			e = emin
 		else
-			-> (n, e, s << m)
+			-> (n, e, s << (m : @u))
 		;;
 	;;
 
diff --git a/parse/infer.c b/parse/infer.c
index 904020f..3d31ea0 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1250,6 +1250,8 @@ unify(Node *ctx, Type *u, Type *v)
 	} else if (a->type != Tyvar) {
 		typeerror(a, b, ctx, NULL);
 	}
+	if (a->type == Typaram && !tyeq(a, b))
+		typeerror(a, b, ctx, NULL);
 	mergetraits(ctx, a, b);
 	if (a->isreflect || b->isreflect) {
 		tagreflect(r);
-- 
2.43.0


From be88e479780a9e22aee97accf05e5e334ef598fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:19 +0000
Subject: [PATCH 67/98] fix: implementations for named types' patterns were
 ranked wrongly

g(@a) was no better than @a, and (@a, @a) matched two different types.
---
 parse/infer.c | 52 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 3d31ea0..6c7fac5 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -776,17 +776,42 @@ uconresolve(Node *n)
 	return uc;
 }
 
+/* Does 't' have parts which are not known yet? */
+static int
+hasvars(Type *t)
+{
+	size_t i;
+
+	t = tysearch(t);
+	if (t->type == Tyvar)
+		return 1;
+	for (i = 0; i < t->narg; i++)
+		if (hasvars(t->arg[i]))
+			return 1;
+	if (t->type != Tyname)
+		for (i = 0; i < t->nsub; i++)
+			if (hasvars(t->sub[i]))
+				return 1;
+	return 0;
+}
+
 /* this doesn't walk through named types, so it can't recurse infinitely. */
-int
-tymatchrank(Type *pat, Type *to)
+static int
+matchrank(Type *pat, Type *to, Htab *bound)
 {
 	int match, q;
 	size_t i;
 	Ucon *puc, *tuc;
+	Type *prev;
 
 	pat = tysearch(pat);
 	to = tysearch(to);
 	if (pat->type == Typaram) {
+		/* a repeated parameter is one type, and more specific than two */
+		prev = htget(bound, pat->pname);
+		if (prev)
+			return hasvars(prev) || hasvars(to) || tyeq(prev, to) ? 1 : -1;
+		htput(bound, pat->pname, to);
 		if (!pat->trneed)
 			return 0;
 		for (i = 0; bsiter(pat->trneed, &i); i++)
@@ -807,7 +832,7 @@ tymatchrank(Type *pat, Type *to)
 		for (i = 0; i < pat->nmemb; i++) {
 			if (!streq(declname(pat->sdecls[i]),declname( to->sdecls[i])))
 				return -1;
-			q = tymatchrank(decltype(pat->sdecls[i]), decltype(to->sdecls[i]));
+			q = matchrank(decltype(pat->sdecls[i]), decltype(to->sdecls[i]), bound);
 			if (q < 0)
 				return -1;
 			match += q;
@@ -822,7 +847,7 @@ tymatchrank(Type *pat, Type *to)
 			puc = pat->udecls[i];
 			tuc = to->udecls[i];
 			if (puc->etype && tuc->etype) {
-				q = tymatchrank(puc->etype, tuc->etype);
+				q = matchrank(puc->etype, tuc->etype, bound);
 				if (q < 0)
 					return -1;
 				match += q;
@@ -836,8 +861,9 @@ tymatchrank(Type *pat, Type *to)
 			return -1;
 		if (pat->narg != to->narg)
 			return -1;
+		match = 1;
 		for (i = 0; i < pat->narg; i++) {
-			q = tymatchrank(pat->arg[i], to->arg[i]);
+			q = matchrank(pat->arg[i], to->arg[i], bound);
 			if (q < 0)
 				return -1;
 			match += q;
@@ -848,7 +874,7 @@ tymatchrank(Type *pat, Type *to)
 			return -1;
 		if (arraysz(pat->asize) != arraysz(to->asize))
 			return -1;
-		q = tymatchrank(pat->sub[0], to->sub[0]);
+		q = matchrank(pat->sub[0], to->sub[0], bound);
 		if (q < 0)
 			return -1;
 		match = q + 1;
@@ -859,7 +885,7 @@ tymatchrank(Type *pat, Type *to)
 		if (pat->type == to->type)
 			match = 1;
 		for (i = 0; i < pat->nsub; i++) {
-			q = tymatchrank(pat->sub[i], to->sub[i]);
+			q = matchrank(pat->sub[i], to->sub[i], bound);
 			if (q < 0)
 				return -1;
 			match += q;
@@ -869,6 +895,18 @@ tymatchrank(Type *pat, Type *to)
 	return match;
 }
 
+int
+tymatchrank(Type *pat, Type *to)
+{
+	Htab *bound;
+	int rank;
+
+	bound = mkht(strhash, streq);
+	rank = matchrank(pat, to, bound);
+	htfree(bound);
+	return rank;
+}
+
 static int
 tryconstrain(Type *base, Trait *tr, int update)
 {
-- 
2.43.0


From 8615159339284b62f253211547d3a205a666914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:19 +0000
Subject: [PATCH 68/98] fix: an implementation for g(@a) at g(g(x)) hung the
 compiler

The type environment became its own parent.
---
 parse/infer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 6c7fac5..fdcf3e6 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -339,6 +339,12 @@ typeerror(Type *a, Type *b, Node *ctx, char *msg)
 static void
 setsuperenv(Tyenv *e, Tyenv *super)
 {
+	Tyenv *s;
+
+	/* an environment which is entered again already is where it belongs */
+	for (s = super; s; s = s->super)
+		if (s == e)
+			return;
 	if (e)
 		e->super = super;
 }
-- 
2.43.0


From 6761446f35455da2607546c3e9e2fdeb45a5d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:19 +0000
Subject: [PATCH 69/98] fix: iterators for types which nest their parameters
 did not work

---
 parse/infer.c      | 3 +--
 parse/parse.h      | 1 +
 parse/specialize.c | 3 +--
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index fdcf3e6..257829d 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2516,8 +2516,7 @@ fixiter(Node *n, Type *ty, Type *base)
 		orig = impl->impl.type;
 		t = tf(impl->impl.aux[0]);
 		ts = mksubst();
-		for (i = 0; i < ty->narg; i++)
-			substput(ts, tf(orig->arg[i]), ty->arg[i]);
+		fillsubst(ts, ty, tf(orig));
 		t = tyfreshen(ts, t);
 		substfree(ts);
 		unify(n, t, base);
diff --git a/parse/parse.h b/parse/parse.h
index 4c28431..acc1c1f 100644
--- a/parse/parse.h
+++ b/parse/parse.h
@@ -552,6 +552,7 @@ int vareq(void *a, void *b);
 Op exprop(Node *n);
 
 /* specialize generics */
+void fillsubst(Tysubst *subst, Type *to, Type *from);
 Tysubst *mksubst(void);
 void substfree(Tysubst *subst);
 void substput(Tysubst *subst, Type *from, Type *to);
diff --git a/parse/specialize.c b/parse/specialize.c
index 4d62fc4..fe5aa28 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -14,7 +14,6 @@
 #include "parse.h"
 
 static Node *specializenode(Node *g, Tysubst *tsmap);
-static void fillsubst(Tysubst *tsmap, Type *to, Type *from);
 
 static void
 substpush(Tysubst *subst)
@@ -219,7 +218,7 @@ substputspec(Tysubst *tsmap, Type *from, Type *to)
  * Fills the substitution map with a mapping from
  * the type parameter 'from' to it's substititon 'to'
  */
-static void
+void
 fillsubst(Tysubst *tsmap, Type *to, Type *from)
 {
 	size_t i;
-- 
2.43.0


From c67ee0684475d31fea53298f7459cab38f66415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:19 +0000
Subject: [PATCH 70/98] fix: generics used in other generics before their
 declaration

Their type became the one of the first use, so that a second use with
another type failed, and mutual recursion crashed the compiler.
---
 parse/infer.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 257829d..93a569e 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -3093,6 +3093,31 @@ verify(void)
 	}
 }
 
+/* A generic function may be used before it is declared. If
+ * it says what type it has, then its uses can know the type. */
+static void
+inferproto(Node *n)
+{
+	Node *f;
+	size_t i;
+
+	if (n->type != Ndecl || !n->decl.isgeneric || !n->decl.init)
+		return;
+	if (tysearch(decltype(n))->type != Tyvar || exprop(n->decl.init) != Olit)
+		return;
+	if (n->decl.init->expr.args[0]->lit.littype != Lfunc)
+		return;
+	f = n->decl.init->expr.args[0]->lit.fnval;
+	for (i = 0; i < f->func.type->nsub; i++)
+		if (tysearch(f->func.type->sub[i])->type == Tyvar)
+			return;
+	ingeneric++;
+	pushenv(n->decl.env);
+	settype(n, f->func.type);
+	popenv(n->decl.env);
+	ingeneric--;
+}
+
 void
 infer(void)
 {
@@ -3104,6 +3129,8 @@ infer(void)
 	/* do the inference */
 	pushstab(file.globls);
 	inferstab(file.globls);
+	for (i = 0; i < file.nstmts; i++)
+		inferproto(file.stmts[i]);
 	for (i = 0; i < file.nstmts; i++)
 		infernode(&file.stmts[i], NULL, 0);
 	popstab();
-- 
2.43.0


From 95d1cd1d9a6a3160c07d090fea66449a479b1a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:19 +0000
Subject: [PATCH 71/98] fix: labels in generics were defined once per
 specialization

---
 parse/specialize.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parse/specialize.c b/parse/specialize.c
index fe5aa28..d86e090 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -13,6 +13,8 @@
 #include "util.h"
 #include "parse.h"
 
+static size_t nspecialized;
+
 static Node *specializenode(Node *g, Tysubst *tsmap);
 
 static void
@@ -334,6 +336,16 @@ fixup(Node *n)
 	}
 }
 
+/* The labels of each specialization are different ones */
+static char *
+speclbl(char *lbl)
+{
+	char buf[1024];
+
+	bprintf(buf, sizeof buf, "%s.%zd", lbl, nspecialized);
+	return strdup(buf);
+}
+
 /*
  * Duplicates a node, replacing all things that
  * need to be specialized to make it concrete
@@ -378,7 +390,7 @@ specializenode(Node *n, Tysubst *tsmap)
 		case Lint:	r->lit.intval = n->lit.intval;	break;
 		case Lflt:	r->lit.fltval = n->lit.fltval;	break;
 		case Lstr:	r->lit.strval = n->lit.strval;	break;
-		case Llbl:	r->lit.lblval = n->lit.lblval;	break;
+		case Llbl:	r->lit.lblval = speclbl(n->lit.lblval);	break;
 		case Lbool:	r->lit.boolval = n->lit.boolval;	break;
 		case Lfunc:	r->lit.fnval = specializenode(n->lit.fnval, tsmap);	break;
 		}
@@ -585,6 +597,7 @@ specializedcl(Node *gnode, Type *param, Type *to, Node **name)
 	d->decl.isconst = g->decl.isconst;
 	d->decl.isextern = g->decl.isextern;
 	d->decl.isglobl = g->decl.isglobl;
+	nspecialized++;
 	d->decl.init = specializenode(g->decl.init, tsmap);
 	putdcl(st, d);
 
-- 
2.43.0


From 3ab390b9f74f755dbd8ee05e2b9037c47d9f85c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:19 +0000
Subject: [PATCH 72/98] fix: impl(name, @a) in generics failed for names with
 the trait's type

---
 parse/infer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 93a569e..c9eade9 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1902,6 +1902,9 @@ inferexpr(Node **np, Type *ret, int *sawret)
 			fatal(n, "undeclared var %s", ctxstr(args[0]));
 		if (n->expr.param && !s->decl.trait)
 			fatal(n, "var %s must refer to a trait decl", ctxstr(args[0]));
+		/* the type belongs to our environment, and not to the decl's */
+		if (n->expr.param)
+			n->expr.param = tf(n->expr.param);
 		pushenv(s->decl.env);
 		initvar(n, s);
 		popenv(s->decl.env);
-- 
2.43.0


From e0232f439db723711c3ec28fbc27ebbc24fbd6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:19 +0000
Subject: [PATCH 73/98] fix: constants of a trait's own type could not be used
 outside generics

---
 parse/infer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/infer.c b/parse/infer.c
index c9eade9..0c6cb34 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1411,7 +1411,8 @@ initvar(Node *n, Node *s)
 	if (s->decl.isgeneric && !ingeneric) {
 		t = tyfreshen(NULL, t);
 		addspecialization(n, curstab());
-		if (t->type == Tyvar) {
+		/* the type of a trait's constant may be the trait's type itself */
+		if (t->type == Tyvar && !s->decl.trait) {
 			settype(n, mktyvar(n->loc));
 			delayedcheck(n);
 		} else {
-- 
2.43.0


From 5c64169461feb8a9faa4c3283f06ba2698de9d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 74/98] fix: the address of a void variable crashed the
 compiler

---
 6/isel.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/6/isel.c b/6/isel.c
index 8b5a36c..fb7d3b7 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -1040,6 +1040,9 @@ selexpr(Isel *s, Node *n)
 			r = loclitl(a->lbl);
 		} else {
 			r = locreg(ModeQ);
+			/* void has no mode, but its address isn't different */
+			if (!a->mode)
+				a->mode = ModeQ;
 			g(s, Ilea, a, r, NULL);
 		}
 		break;
-- 
2.43.0


From f657ae5b9338f8e4be4e35744be5e6af2a5cb48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 75/98] fix: 6m aborted when the assembler failed

---
 6/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/6/main.c b/6/main.c
index 45d9791..6cc7d51 100644
--- a/6/main.c
+++ b/6/main.c
@@ -133,8 +133,10 @@ assemble(char *asmsrc, char *path)
 			die("Couldn't exec assembler\n");
 	} else {
 		waitpid(pid, &status, 0);
-		if (!WIFEXITED(status) || WEXITSTATUS(status) != 0)
-			die("Couldn't run assembler");
+		if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
+			fprintf(stderr, "%s: couldn't be assembled\n", path);
+			exit(1);
+		}
 	}
 	if (!writeasm)
 		unlink(asmsrc);
-- 
2.43.0


From 5bc60617247bc7a0a8b1219deb5f43a53ec0e972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 76/98] fix: errors in constants aborted the compiler

---
 6/simp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index d2e44aa..3b894e3 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -513,7 +513,7 @@ slicebase(Simp *s, Node *n, Node *off)
 	case Typtr:	u = n;	break;
 	case Tyslice:	u = load(addr(s, n, mktyptr(n->loc, base(exprtype(n)))));	break;
 	case Tyarray:	u = addr(s, n, base(exprtype(n)));	break;
-	default: die("Unslicable type %s", tystr(n->expr.type));
+	default: fatal(n, "unslicable type %s", tystr(n->expr.type));
 	}
 	/* safe: all types we allow here have a sub[0] that we want to grab */
 	if (off) {
@@ -1719,7 +1719,7 @@ simpconstinit(Simp *s, Node *dcl)
 			break;
 		}
 	} else {
-		die("Non-constant initializer for %s\n", declname(dcl));
+		fatal(dcl, "non-constant initializer for %s", declname(dcl));
 	}
 }
 
-- 
2.43.0


From 8dede204c92b8f9592e011cb55db017333241ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 77/98] fix: function literals inside constant aggregates
 crashed the compiler

---
 6/simp.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index 3b894e3..02ea0bb 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -1655,6 +1655,24 @@ simpfn(Simp *s, char *name, Node *dcl)
 	return fn;
 }
 
+static void
+extractsub(Simp *s, Node *e);
+
+/* the code of functions goes elsewhere */
+static void
+extractelt(Simp *s, Node **e)
+{
+	Node *idx;
+
+	if (exprop(*e) == Olit && (*e)->expr.args[0]->lit.littype == Lfunc) {
+		idx = (*e)->expr.idx;
+		*e = simpcode(s, *e);
+		(*e)->expr.idx = idx;
+	} else {
+		extractsub(s, *e);
+	}
+}
+
 static void
 extractsub(Simp *s, Node *e)
 {
@@ -1679,11 +1697,11 @@ extractsub(Simp *s, Node *e)
 	case Ostruct:
 	case Otup:
 		for (i = 0; i < e->expr.nargs; i++)
-			extractsub(s, e->expr.args[i]);
+			extractelt(s, &e->expr.args[i]);
 		break;
 	case Oucon:
 		if (e->expr.nargs == 2)
-			extractsub(s, e->expr.args[1]);
+			extractelt(s, &e->expr.args[1]);
 		break;
 	default:
 		break;
-- 
2.43.0


From 6dbe13b8094503537d7c6ba5c5bfbd45c5c8fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 78/98] fix: empty aggregates could not be passed as arguments

---
 6/typeinfo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/6/typeinfo.c b/6/typeinfo.c
index bfdaf8d..f655457 100644
--- a/6/typeinfo.c
+++ b/6/typeinfo.c
@@ -551,7 +551,8 @@ classify(Type *t)
 	if (tybase(t)->type == Tyvoid) {
 		return ArgVoid;
 	} else if (isstacktype(t)) {
-		if (isaggregate(t) && sz <= 16) {
+		/* nothing has to be passed for an empty aggregate */
+		if (isaggregate(t) && sz > 0 && sz <= 16) {
 			classify_recursive(t, pi, &total_offset);
 			if (pi[0] == PassInMemory || pi[1] == PassInMemory) {
 				return ArgBig;
-- 
2.43.0


From c3890c8e3db5d625ee5c1d10c50e5002346a80a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 79/98] fix: conditions which are neither true nor false
 crashed the compiler

---
 mi/flatten.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mi/flatten.c b/mi/flatten.c
index fb163ae..13730d1 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -73,7 +73,11 @@ static void
 cjmp(Flattenctx *s, Node *cond, Node *iftrue, Node *iffalse)
 {
 	Node *jmp;
+	Type *ty;
 
+	ty = tybase(exprtype(cond));
+	if (ty->type == Tyvoid || istyfloat(ty))
+		fatal(cond, "%s is neither true nor false", tystr(exprtype(cond)));
 	jmp = mkexpr(cond->loc, Ocjmp, cond, iftrue, iffalse, NULL);
 	jmp->expr.type = mktype(cond->loc, Tyvoid);
 	append(s, jmp);
-- 
2.43.0


From 3005e3dd2f2f6f18d7ab4c95e65eeb6cb8ed494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 80/98] fix: function literals as patterns crashed the compiler

---
 mi/match.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mi/match.c b/mi/match.c
index df96419..71845a3 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -522,6 +522,8 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 				v = arrayelt(val, i);
 				addrec(fs, p, v, mkpath(path, 1+i));
 			}
+		} else if (pat->expr.args[0]->lit.littype == Lfunc) {
+			fatal(pat, "bad pattern: %s is unmatchable", tystr(exprtype(pat)));
 		} else {
 			lappend(&fs->slot, &fs->nslot, mkslot(path, pat, val));
 		}
-- 
2.43.0


From 43f523fdc976199f941a0b0763a350c831d5eef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 81/98] fix: constants defined as themselves hung the compiler

---
 parse/export.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse/export.c b/parse/export.c
index d49a82d..71a355b 100644
--- a/parse/export.c
+++ b/parse/export.c
@@ -130,8 +130,11 @@ fnconstval(Node *n)
 {
 	Node *name, *d;
 	Stab *st;
+	size_t i;
 
-	while (isfnconst(n) && exprop(n->decl.init) == Ovar) {
+	for (i = 0; isfnconst(n) && exprop(n->decl.init) == Ovar; i++) {
+		if (i > ndecls)
+			fatal(n, "%s is defined as itself", declname(n));
 		if (!n->decl.isimport) {
 			n = decls[n->decl.init->expr.did];
 			continue;
-- 
2.43.0


From 16f7cae0f310bcff6e1b6f922a282d622db67ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 82/98] fix: too deep nesting failed an assertion

---
 parse/gram.y | 3 ++-
 parse/stab.c | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/parse/gram.y b/parse/gram.y
index 9b8f36e..fcac6ff 100644
--- a/parse/gram.y
+++ b/parse/gram.y
@@ -892,7 +892,8 @@ strlit : Tstrlit { $$ = mkstr($1->loc, $1->strval); }
 	;
 
 obrace	: Tobrace {
-		assert(lbldepth < LBLSTKSZ);
+		if (lbldepth == LBLSTKSZ)
+			lfatal(curloc, "functions nested too deeply");
 		lbldepth++;
 	}
 	;
diff --git a/parse/stab.c b/parse/stab.c
index 8e0b515..842ef4b 100644
--- a/parse/stab.c
+++ b/parse/stab.c
@@ -104,7 +104,8 @@ curstab()
 void
 pushstab(Stab *st)
 {
-	assert(stabstkoff < Maxstabdepth);
+	if (stabstkoff == Maxstabdepth)
+		lfatal(curloc, "scopes nested too deeply");
 	stabstk[stabstkoff++] = st;
 }
 
@@ -152,7 +153,8 @@ pushenv(Tyenv *env)
 {
 	if (!env)
 		return;
-	assert(envstkoff < Maxstabdepth);
+	if (envstkoff == Maxstabdepth)
+		lfatal(curloc, "types or scopes nested too deeply");
 	envstk[envstkoff++] = env;
 }
 
-- 
2.43.0


From 04caae3b8f302c6dda3c38dadf1eb1276924583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 83/98] fix: declarations outside of their namespace crashed
 the compiler

---
 parse/gram.y  | 2 ++
 parse/infer.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse/gram.y b/parse/gram.y
index fcac6ff..6156943 100644
--- a/parse/gram.y
+++ b/parse/gram.y
@@ -258,6 +258,8 @@ toplev	: package
 			mangleautocall(d, declname(d));
 			putdcl(file.globls, d);
 			n = getdcl(file.globls, d->decl.name);
+			if (!n)
+				lfatal(d->loc, "%s is declared outside of its namespace", declname(d));
 			lappend(&file.stmts, &file.nstmts, n);
 			d->decl.isglobl = 1;
 			if (d->decl.isinit)
diff --git a/parse/infer.c b/parse/infer.c
index 0c6cb34..b6d110f 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -3105,7 +3105,7 @@ inferproto(Node *n)
 	Node *f;
 	size_t i;
 
-	if (n->type != Ndecl || !n->decl.isgeneric || !n->decl.init)
+	if (!n || n->type != Ndecl || !n->decl.isgeneric || !n->decl.init)
 		return;
 	if (tysearch(decltype(n))->type != Tyvar || exprop(n->decl.init) != Olit)
 		return;
-- 
2.43.0


From 0a8c2e76f13fafff6dd1d3f82da3eff9eac96a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 84/98] fix: values of infinite types crashed the compiler

---
 parse/infer.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index b6d110f..41ebf38 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -402,17 +402,39 @@ occurs_rec(Type *sub, Bitset *bs)
 	return 0;
 }
 
+/* a variable can not stand for a type that it is a part of, even if
+ * the size of that type would be finite: [x][:] is no type for x. */
+static int
+occursin_rec(Type *a, Type *b, Bitset *visited)
+{
+	size_t i;
+
+	b = tysearch(b);
+	if (a == b)
+		return 1;
+	if (bshas(visited, b->tid))
+		return 0;
+	bsput(visited, b->tid);
+	for (i = 0; i < b->narg; i++)
+		if (occursin_rec(a, b->arg[i], visited))
+			return 1;
+	if (b->type == Tyname)
+		return 0;
+	for (i = 0; i < b->nsub; i++)
+		if (occursin_rec(a, b->sub[i], visited))
+			return 1;
+	return 0;
+}
+
 static int
 occursin(Type *a, Type *b)
 {
-	Bitset *bs;
+	Bitset *visited;
 	int r;
 
-	bs = mkbs();
-	a = tf(a);
-	bsput(bs, a->tid);
-	r = occurs_rec(b, bs);
-	bsfree(bs);
+	visited = mkbs();
+	r = occursin_rec(tf(a), tf(b), visited);
+	bsfree(visited);
 	return r;
 }
 
-- 
2.43.0


From f49c9989d861f652f81cc958f0db7aeb73913805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 85/98] fix: type arguments of types without parameters were
 ignored

---
 parse/infer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 41ebf38..bb6c540 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -695,6 +695,8 @@ tf(Type *orig)
 		pushenv(orig->env);
 		t = tysubst(t, orig);
 		popenv(orig->env);
+	} else if (orig->type == Tyunres && orig->narg != 0) {
+		lfatal(orig->loc, "%s is not generic, but was given %zd types", tystr(t), orig->narg);
 	}
 	ingeneric -= isgeneric;
 	return t;
-- 
2.43.0


From e51f24415bcbc9e99d9c6a7d1eddb2bf3f6f75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 86/98] fix: implementations could leave out functions of their
 trait

---
 parse/infer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index bb6c540..67578a3 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2014,6 +2014,7 @@ specializeimpl(Node *n)
 	size_t i, j;
 	int generic;
 	char *traitns;
+	Bitset *found;
 
 	tr = gettrait(curstab(), n->impl.traitname);
 	if (!tr)
@@ -2026,6 +2027,7 @@ specializeimpl(Node *n)
 		fatal(n, "%s incompatibly specialized with %zd types instead of %zd types",
 			namestr(n->impl.traitname), n->impl.naux, tr->naux);
 	n->impl.type = tf(n->impl.type);
+	found = mkbs();
 	pushenv(n->impl.env);
 	for (i = 0; i < n->impl.naux; i++)
 		n->impl.aux[i] = tf(n->impl.aux[i]);
@@ -2046,6 +2048,7 @@ specializeimpl(Node *n)
 		for (j = 0; j < tr->nproto; j++) {
 			if (nsnameeq(dcl->decl.name, tr->proto[j]->decl.name)) {
 				proto = tr->proto[j];
+				bsput(found, j);
 				break;
 			}
 		}
@@ -2093,6 +2096,11 @@ specializeimpl(Node *n)
 		if (generic)
 			ingeneric--;
 	}
+	for (i = 0; i < tr->nproto; i++)
+		if (!n->impl.isproto && !bshas(found, i))
+			fatal(n, "%s missing in impl of %s for %s", declname(tr->proto[i]),
+				namestr(tr->name), tystr(n->impl.type));
+	bsfree(found);
 	popenv(n->impl.env);
 }
 
-- 
2.43.0


From f71d6df5c8fb68bc84ee2cbe0ec7c8238e8c902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 87/98] fix: sizes of arrays which are no integers crashed the
 compiler

---
 parse/infer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 67578a3..da145ea 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2328,6 +2328,8 @@ tyfix(Node *ctx, Type *orig, int noerr)
 		case Tyarray:
 			if (t->type == Tyarray && t->asize)
 				t->asize = fold(t->asize, 1);
+			if (t->asize && exprop(t->asize) == Olit && t->asize->expr.args[0]->lit.littype != Lint)
+				fatal(t->asize, "array size is not an integer near %s", ctxstr(t->asize));
 			if (t->asize && getintlit(t->asize, &val) && val < 0)
 				fatal(t->asize, "negative array size %lld\n", val);
 			typesub(t->asize, noerr);
-- 
2.43.0


From 14e849135d5777720e89f0badf4437f3f5f7a2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 88/98] fix: members of values of unknown type failed an
 assertion

---
 parse/infer.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parse/infer.c b/parse/infer.c
index da145ea..487d643 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2594,7 +2594,9 @@ static void
 postinfer(void)
 {
 	Postcheck **post;
-	size_t npost, nlast;
+	size_t npost, nlast, i;
+	Node *n;
+	Type *t;
 
 	/* Iterate until we reach a fixpoint. */
 	nlast = 0;
@@ -2607,6 +2609,18 @@ postinfer(void)
 		}
 		nlast = npost;
 	}
+
+	/* no member can be found if there's nothing to look at */
+	for (i = 0; i < npost; i++) {
+		n = post[i]->node;
+		if (n->type != Nexpr || (exprop(n) != Omemb && exprop(n) != Otupmemb))
+			continue;
+		t = tybase(tf(type(n->expr.args[0])));
+		if (t->type == Typtr)
+			t = tybase(tf(t->sub[0]));
+		if (t->type == Tyvar && !hthas(delayed, t))
+			fatal(n, "underconstrained type %s near %s", tystr(t), ctxstr(n));
+	}
 }
 
 /* After inference, replace all
-- 
2.43.0


From 750181265905456fd692f8556d635eee0d45b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 89/98] fix: main could be declared as something other than a
 function

---
 parse/infer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/infer.c b/parse/infer.c
index 487d643..943af7f 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2716,7 +2716,7 @@ initcompatible(Type *t)
 static int
 maincompatible(Type *t)
 {
-	if (t->nsub > 2)
+	if (t->type != Tyfunc || t->nsub > 2)
 		return 0;
 	if (tybase(t->sub[0])->type != Tyvoid)
 		return 0;
-- 
2.43.0


From 3365296c973b86c3689e1bb83eb9331dbd8b4d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 90/98] fix: traits in unknown namespaces crashed the compiler

---
 parse/stab.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse/stab.c b/parse/stab.c
index 842ef4b..4971b58 100644
--- a/parse/stab.c
+++ b/parse/stab.c
@@ -331,6 +331,8 @@ gettrait(Stab *st, Node *n)
 
 	if (n->name.ns)
 		st = getns(n->name.ns);
+	if (!st)
+		return NULL;
 	do {
 		if ((c = htget(st->tr, n)))
 			return c->trait;
-- 
2.43.0


From 7eb88d333fbe8d5605c5f816c8d61a7fcbd2583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 91/98] fix: two traits of the same name in a file were
 accepted

---
 parse/stab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/stab.c b/parse/stab.c
index 4971b58..0bdd67f 100644
--- a/parse/stab.c
+++ b/parse/stab.c
@@ -524,7 +524,7 @@ mergetrait(Trait *old, Trait *new)
 	else if (new->isproto && !old->isproto)
 		*new = *old;
 	else if (!new->isimport && !old->isimport)
-		if (new->vis == Vishidden || old->vis == Vishidden)
+		if (new != old)
 			return 0;
 	new->ishidden = hidden;
 	old->ishidden = hidden;
-- 
2.43.0


From 4b3c67a6afedf02ce348792395d6d17eec433742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:55 +0000
Subject: [PATCH 92/98] fix: values of named function types could not be called

---
 6/simp.c      | 2 +-
 parse/infer.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/6/simp.c b/6/simp.c
index 02ea0bb..dbdb9ab 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -1025,7 +1025,7 @@ vatypeinfo(Simp *s, Node *n)
 
 	st = NULL;
 	nst = 0;
-	ft = exprtype(n->expr.args[0]);
+	ft = tybase(exprtype(n->expr.args[0]));
 	/* The structure of ft->sub:
 	 *   [return, normal, args, ...]
 	 *
diff --git a/parse/infer.c b/parse/infer.c
index 943af7f..1fff09d 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1358,6 +1358,7 @@ unifycall(Node *n)
 	} else if (tybase(ft)->type != Tyfunc) {
 		fatal(n, "calling uncallable type %s", tystr(ft));
 	}
+	ft = tybase(ft);
 	/* first arg: function itself */
 	for (i = 1; i < n->expr.nargs; i++) {
 		if (i == ft->nsub)
-- 
2.43.0


From 6459035d96e0352c193c7f6c4be457e6998df745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:36 +0000
Subject: [PATCH 93/98] fix: constants could be changed by assignment operators
 and increments

---
 parse/infer.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 1fff09d..1424c4e 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1725,6 +1725,30 @@ infersub(Node *n, Type *ret, int *sawret, int *exprconst)
 	*exprconst = n->expr.isconst;
 }
 
+static int
+opmodifies(Op op)
+{
+	switch (op) {
+	case Oasn:
+	case Oaddeq: case Osubeq: case Omuleq: case Odiveq: case Omodeq:
+	case Oboreq: case Obandeq: case Obxoreq: case Obsleq: case Obsreq:
+	case Opreinc: case Opredec: case Opostinc: case Opostdec:
+		return 1;
+	default:
+		return 0;
+	}
+}
+
+static void
+checkasn(Node *n)
+{
+	Node *lhs;
+
+	lhs = n->expr.args[0];
+	if (lhs->expr.isconst)
+		fatal(n, "attempting to assign constant \"%s\"", ctxstr(lhs));
+}
+
 static void
 inferexpr(Node **np, Type *ret, int *sawret)
 {
@@ -1769,6 +1793,8 @@ inferexpr(Node **np, Type *ret, int *sawret)
 		}
 		n->expr.isconst = isconst;
 		settype(n, t);
+		if (opmodifies(exprop(n)))
+			checkasn(n);
 		break;
 	case Omod:	/* @a % @a -> @a */
 	case Obor:	/* @a | @a -> @a */
@@ -1798,6 +1824,8 @@ inferexpr(Node **np, Type *ret, int *sawret)
 		}
 		n->expr.isconst = isconst;
 		settype(n, t);
+		if (opmodifies(exprop(n)))
+			checkasn(n);
 		break;
 	case Oasn:	/* @a = @a -> @a */
 		infersub(n, ret, sawret, &isconst);
@@ -1805,8 +1833,7 @@ inferexpr(Node **np, Type *ret, int *sawret)
 		for (i = 1; i < nargs; i++)
 			t = unify(n, t, type(args[i]));
 		settype(n, t);
-		if (args[0]->expr.isconst)
-			fatal(n, "attempting to assign constant \"%s\"", ctxstr(args[0]));
+		checkasn(n);
 		break;
 
 		/* operands same type, returning bool */
-- 
2.43.0


From 309eb4e96a8907b00517d686c94a933db38df36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:18 +0000
Subject: [PATCH 94/98] fix: mbld complained about use files of the current
 version

---
 mbld/libs.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbld/libs.myr b/mbld/libs.myr
index 66d0957..37460ef 100644
--- a/mbld/libs.myr
+++ b/mbld/libs.myr
@@ -23,7 +23,7 @@ pkg bld =
 ;;
 
 /* Keep in sync with parse/parse.h */
-const Abiversion = 23
+const Abiversion = 24
 
 const builtlib = {b, mt, dep, dyndep
 	var ldep, l, u
-- 
2.43.0


From 8a159ec143f5ea5ba0a1882ad55850ea1c6faf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:06 +0000
Subject: [PATCH 95/98] fix: mbld crashed instead of saying that an attribute
 list is not ended

---
 mbld/parse.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbld/parse.myr b/mbld/parse.myr
index cf7eb84..fbf4b4e 100644
--- a/mbld/parse.myr
+++ b/mbld/parse.myr
@@ -595,7 +595,7 @@ const attrlist = {p
 		;;
 	;;
 	if !matchc(p, '}')
-		failparse(p, "expected '}' at end of attr list, got '{}'\n", peekc(p))
+		failparse(p, "expected '}}' at end of attr list, got '{}'\n", peekc(p))
 	;;
 	if al.len == 0
 		-> `std.None
-- 
2.43.0


From 8435dda64289f75e681144603eb1ff5dbebf0622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:06 +0000
Subject: [PATCH 96/98] fix: mbld kept using inputs that were removed from a
 build file

---
 mbld/build.myr |  5 +++++
 mbld/deps.myr  | 10 ++++++++++
 mbld/parse.myr |  1 +
 mbld/types.myr |  2 ++
 4 files changed, 18 insertions(+)

diff --git a/mbld/build.myr b/mbld/build.myr
index 0725aa2..083dd9a 100644
--- a/mbld/build.myr
+++ b/mbld/build.myr
@@ -72,6 +72,11 @@ const launch = {b, n
 
 	if stale(b, n)
 		mkout(n)
+		if n.fresh
+			for g : n.gen
+				std.remove(g)
+			;;
+		;;
 		pid = run(n.cmd, "")
 		std.htput(b.proc, pid, n)
 	else
diff --git a/mbld/deps.myr b/mbld/deps.myr
index 863285f..5a8074e 100644
--- a/mbld/deps.myr
+++ b/mbld/deps.myr
@@ -124,6 +124,14 @@ const myrdeps = {b, name, mt
 		std.slfree(u)
 	;;
 
+	/* the list of inputs comes from the build file */
+	match std.fmtime(mt.bldfile)
+	| `std.Ok tm:
+		go.deptime = tm
+		gu.deptime = tm
+	| `std.Err e:	/* use the mtimes of the inputs */
+	;;
+
 	libs = [][:]
 	ldflags = [][:]
 	dynlibs = [][:]
@@ -429,6 +437,8 @@ const musecmd = {b, n, mt, mu, dynlibs
 }
 
 const arcmd = {b, n, mt, ar
+	/* ar keeps the members that are no longer inputs */
+	n.fresh = true
 	for c : config.Arcmd
 		std.slpush(&n.cmd, std.sldup(c))
 	;;
diff --git a/mbld/parse.myr b/mbld/parse.myr
index fbf4b4e..e1b7cae 100644
--- a/mbld/parse.myr
+++ b/mbld/parse.myr
@@ -468,6 +468,7 @@ const myrtarget = {b, p, targ
 	-> std.mk([
 		/* target */
 		.dir=std.sldup(p.fdir),
+		.bldfile=std.sldup(p.fname),
 		.name=name,
 		.inputs=inputs,
 		.libdeps=libdeps,
diff --git a/mbld/types.myr b/mbld/types.myr
index f18aafa..794093c 100644
--- a/mbld/types.myr
+++ b/mbld/types.myr
@@ -36,6 +36,7 @@ pkg bld =
 	type myrtarg = struct
 		name	: byte[:]
 		dir	: byte[:]
+		bldfile	: byte[:]
 
 		inputs	: byte[:][:]
 		/* dir, lib, targname */
@@ -134,6 +135,7 @@ pkg bld =
 		nblock	: int32
 		mtime	: std.time
 		durable	: bool	/* keep outputs when cleaning */
+		fresh	: bool	/* remove outputs before building */
 		want	: bool
 	;;
 ;;
-- 
2.43.0


From 732cd6b8fb9046b3c98cf06c66dfada350b7291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:28 +0000
Subject: [PATCH 97/98] fix: structs and unions with the same members in
 another order were taken for the same type

---
 parse/infer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 1424c4e..1b0fb04 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1129,7 +1129,8 @@ unionunify(Node *ctx, Type *u, Type *v)
 	for (i = 0; i < u->nmemb; i++) {
 		found = 0;
 		for (j = 0; j < v->nmemb; j++) {
-			if (!nameeq(u->udecls[i]->name, v->udecls[j]->name))
+			/* the order decides about the tags */
+			if (i != j || !nameeq(u->udecls[i]->name, v->udecls[j]->name))
 				continue;
 			found = 1;
 			if (u->udecls[i]->etype == NULL && v->udecls[j]->etype == NULL)
@@ -1165,7 +1166,8 @@ structunify(Node *ctx, Type *u, Type *v)
 		for (j = 0; j < v->nmemb; j++) {
 			ud = namestr(u->sdecls[i]->decl.name);
 			vd = namestr(v->sdecls[j]->decl.name);
-			if (strcmp(ud, vd) == 0) {
+			/* the order decides about the layout */
+			if (i == j && strcmp(ud, vd) == 0) {
 				found = 1;
 				unify(ctx, type(u->sdecls[i]), type(v->sdecls[j]));
 			}
-- 
2.43.0


From 2836ed8f4dab6d823558cbf3868e00cc2354614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:17 +0000
Subject: [PATCH 98/98] fix: types made of themselves without a struct or a
 union in between crashed the compiler

---
 parse/infer.c | 21 +++++++++++++++++++--
 parse/parse.h |  1 +
 parse/type.c  |  1 +
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 1b0fb04..3f795f0 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -15,6 +15,8 @@
 #include "util.h"
 #include "parse.h"
 
+#define Maxtydepth 1024
+
 typedef struct Traitmap Traitmap;
 typedef struct Postcheck Postcheck;
 
@@ -527,11 +529,16 @@ tyfreshen(Tysubst *subst, Type *orig)
 static void
 tyresolve(Type *t)
 {
+	static int depth;
 	size_t i, j;
 	Trait *tr;
 
 	if (t->resolved)
 		return;
+	/* if the arguments of a generic type include the instance itself,
+	 * it's a new type on every level */
+	if (++depth == Maxtydepth)
+		lfatal(t->loc, "type includes itself, or is nested too deeply");
 	/* type resolution should never throw errors about non-generic
 	 * showing up within a generic type, so we push and pop a generic
 	 * around resolution */
@@ -598,6 +605,7 @@ tyresolve(Type *t)
 		lfatal(t->loc, "type %s includes itself", tystr(t));
 	popenv(t->env);
 	ingeneric--;
+	depth--;
 }
 
 Type *
@@ -2309,6 +2317,7 @@ tyfix(Node *ctx, Type *orig, int noerr)
 {
 	static Type *tyint, *tyflt;
 	static Bitset *intset, *fltset;
+	static int depth;
 	Type *t, *d, *base;
 	Tyenv *env;
 	vlong val;
@@ -2327,6 +2336,8 @@ tyfix(Node *ctx, Type *orig, int noerr)
 	}
 
 	t = tysearch(tf(orig));
+	if (++depth == Maxtydepth)
+		lfatal(t->loc, "type includes itself, or is nested too deeply");
 	env = t->env;
 	if (env)
 		pushenv(env);
@@ -2388,8 +2399,13 @@ tyfix(Node *ctx, Type *orig, int noerr)
 		}
 	}
 
-	for (i = 0; i < t->nsub; i++)
-		t->sub[i] = tyfix(ctx, t->sub[i], noerr);
+	/* a named type can reach itself through its subtypes */
+	if (!t->fixing) {
+		t->fixing = 1;
+		for (i = 0; i < t->nsub; i++)
+			t->sub[i] = tyfix(ctx, t->sub[i], noerr);
+		t->fixing = 0;
+	}
 
 	if (t->type == Tyvar && !noerr)
 		fatal(ctx, "underconstrained type %s near %s", tyfmt(buf, 1024, t), ctxstr(ctx));
@@ -2400,6 +2416,7 @@ tyfix(Node *ctx, Type *orig, int noerr)
 	}
 	if (env)
 		popenv(env);
+	depth--;
 	return t;
 }
 
diff --git a/parse/parse.h b/parse/parse.h
index acc1c1f..5f6665b 100644
--- a/parse/parse.h
+++ b/parse/parse.h
@@ -169,6 +169,7 @@ struct Type {
 	char isemitted;		/* Tyname: whether this type has been emitted */
 	char resolved;		/* Have we resolved the subtypes? Prevents infinite recursion. */
 	char fixed;		/* Have we fixed the subtypes? Prevents infinite recursion. */
+	char fixing;		/* Are we fixing the subtypes? Prevents infinite recursion. */
 	char tagged;		/* Have we tagged the type for export? */
 
 };
diff --git a/parse/type.c b/parse/type.c
index 31b91ed..e5f8294 100644
--- a/parse/type.c
+++ b/parse/type.c
@@ -133,6 +133,7 @@ tydup(Type *t)
 	r = mktype(t->loc, t->type);
 	r->resolved = 0;	/* re-resolving doesn't hurt */
 	r->fixed = 0;		/* re-resolving doesn't hurt */
+	r->fixing = 0;
 
 	r->arg = memdup(t->arg, t->narg * sizeof(Type *));
 	r->narg = t->narg;
-- 
2.43.0

