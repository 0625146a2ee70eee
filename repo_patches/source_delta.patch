From 85a9e31ee61f67247c58d5ebcae512f7f6ade9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 01/97] fix: shift expressions take the type of the promoted
 left operand

---
 c.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 203f0e5..c4ca1dc 100644
--- a/c.c
+++ b/c.c
@@ -208,6 +208,16 @@ static ts_t ts_arith_common(ts_t ts1, ts_t ts2)
   return TS_INT;
 }
 
+/* type in which binary operation op is performed on ts1 and ts2 operands */
+static ts_t ts_binop_common(tt_t op, ts_t ts1, ts_t ts2)
+{
+  ts_t ts = ts_arith_common(ts1, ts2);
+  /* integer shifts are performed in the promoted type of the left operand */
+  if ((op == TT_SHL || op == TT_SHR) && ts != TS_FLOAT && ts != TS_DOUBLE) 
+    ts = ts_integral_promote(ts1);
+  return ts;
+}
+
 /* ts2 can be promoted up to ts1 with implicit cast */
 static bool ts_arith_assign_compatible(ts_t ts1, ts_t ts2)
 {
@@ -380,7 +390,7 @@ static ts_t numval_unop(tt_t op, ts_t tx, const numval_t *pvx, numval_t *pvz)
 /* binary operation between two numbers */
 static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const numval_t *pvy, numval_t *pvz)
 {
-  ts_t tz = ts_arith_common(tx, ty);
+  ts_t tz = ts_binop_common(op, tx, ty);
   numval_t vx = *pvx, vy = *pvy; 
   numval_convert(tz, tx, &vx); numval_convert(tz, ty, &vy);
   switch (tz) {
@@ -2936,7 +2946,7 @@ static node_t *compile_binary(node_t *prn, node_t *pan1, tt_t op, node_t *pan2)
     if (ts2 == TS_ENUM) ts2 = TS_INT;
   }
   if (ts_numerical(ts1) && ts_numerical(ts2)) {
-    ts_t rts = ts_arith_common(ts1, ts2); 
+    ts_t rts = ts_binop_common(op, ts1, ts2); 
     node_t rtn = mknd(), *prtn, *pcn = npnewcode(prn); ndsettype(&rtn, rts);
     if (rts != ts1) pan1 = compile_cast(prn, &rtn, pan1); /* fixme: constant fold oportunity */
     if (rts != ts2) pan2 = compile_cast(prn, &rtn, pan2); /* fixme: constant fold oportunity */
-- 
2.43.0


From 6b2d2522f39000fcdcf3cb4abc680118d9eaa2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 02/97] fix: long and unsigned int operands convert to unsigned
 long

---
 c.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index c4ca1dc..5dda906 100644
--- a/c.c
+++ b/c.c
@@ -203,7 +203,8 @@ static ts_t ts_arith_common(ts_t ts1, ts_t ts2)
   if (ts1 == TS_ULLONG || ts2 == TS_ULLONG) return TS_ULLONG;
   if (ts1 == TS_LLONG  || ts2 == TS_LLONG)  return TS_LLONG;
   if (ts1 == TS_ULONG  || ts2 == TS_ULONG)  return TS_ULONG;
-  if (ts1 == TS_LONG   || ts2 == TS_LONG)   return TS_LONG;
+  if (ts1 == TS_LONG   || ts2 == TS_LONG) /* same size as UINT: wasm32 */   
+    return (ts1 == TS_UINT || ts2 == TS_UINT) ? TS_ULONG : TS_LONG;
   if (ts1 == TS_UINT   || ts2 == TS_UINT)   return TS_UINT;
   return TS_INT;
 }
@@ -223,6 +224,7 @@ static bool ts_arith_assign_compatible(ts_t ts1, ts_t ts2)
 {
   assert(ts_numerical_or_enum(ts1) && ts_numerical_or_enum(ts2));
   if (ts1 == ts2) return true;
+  if (ts1 == TS_LONG && ts2 == TS_UINT) return true; /* can be promoted, although common type is ULONG */
   return ts_arith_common(ts1, ts2) == ts1;
 }
 
-- 
2.43.0


From 2b3e50d829c72b4682c7304fc780b9a9fb48bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 03/97] fix: && and || yield int 0 or 1

---
 c.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/c.c b/c.c
index 5dda906..97a8dd4 100644
--- a/c.c
+++ b/c.c
@@ -3053,6 +3053,16 @@ node_t *compile_booltest(node_t *prn, node_t *pan)
   return pan;
 }
 
+/* compile value of pn, already compiled as pan, as 0 or 1 of type int */
+static node_t *compile_boolval(node_t *prn, const node_t *pn, node_t *pan)
+{
+  numval_t v; 
+  if (pn->nt == NT_INFIX && (pn->op == TT_AND_AND || pn->op == TT_OR_OR)) return pan;
+  if (pn->nt == NT_INFIX && pn->op >= TT_LT && pn->op <= TT_NE) return pan;
+  if (pn->nt == NT_PREFIX && pn->op == TT_NOT) return pan;
+  return compile_binary(prn, pan, TT_NE, compile_numlit(prn, TS_INT, (v.i = 0, &v)));
+}
+
 /* compile x to serve as an integer selector */
 node_t *compile_intsel(node_t *prn, node_t *pan)
 {
@@ -3815,9 +3825,11 @@ static node_t *expr_compile(node_t *pn, buf_t *prib, const node_t *ret)
       node_t *pan2 = expr_compile(ndcref(pn, 1), prib, NULL);
       switch (pn->op) {
         case TT_AND_AND: {
+          pan2 = compile_boolval(pn, ndcref(pn, 1), pan2);
           pcn = compile_cond(pn, pan1, pan2, compile_numlit(pn, TS_INT, (v.i = 0, &v)));
         } break;
         case TT_OR_OR: {
+          pan2 = compile_boolval(pn, ndcref(pn, 1), pan2);
           pcn = compile_cond(pn, pan1, compile_numlit(pn, TS_INT, (v.i = 1, &v)), pan2);
         } break;
         default: { /* normal binary */
-- 
2.43.0


From 60aaff69012a43e3b5bb28b070e5bbe64d345669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:38 +0000
Subject: [PATCH 04/97] fix: float to bool conversion is a comparison with zero

---
 c.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c.c b/c.c
index 97a8dd4..627bf37 100644
--- a/c.c
+++ b/c.c
@@ -2371,6 +2371,11 @@ static void asm_numerical_cast(ts_t tsto, ts_t tsfrom, icbuf_t *pdata)
           icbnewbk(pdata)->in = IN_F64_NE; /* i.e. x != 0.0 */
           return;
         } break;
+        case TS_FLOAT: { 
+          inscode_t *pic = icbnewbk(pdata); pic->in = IN_F32_CONST; pic->arg.f = 0.0f;
+          icbnewbk(pdata)->in = IN_F32_NE; /* i.e. x != 0.0f */
+          return;
+        } break;
         case TS_CHAR:  case TS_SHORT:  case TS_INT:  case TS_LONG:/* wasm32 */ 
         case TS_UCHAR: case TS_USHORT: case TS_UINT: case TS_ULONG:/* wasm32 */ {
           /* these are all ints, we need to compare to zero and negate */
-- 
2.43.0


From 69d705c12c69881587baeff876379e975498c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:57 +0000
Subject: [PATCH 05/97] fix: constant folding does not depend on host undefined
 behaviour or crash

---
 c.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/c.c b/c.c
index 627bf37..f0b0ab4 100644
--- a/c.c
+++ b/c.c
@@ -365,7 +365,7 @@ static ts_t numval_unop(tt_t op, ts_t tx, const numval_t *pvx, numval_t *pvz)
       unsigned long long x = vx.u;
       switch (op) {
         case TT_PLUS:  pvz->u = integral_mask(tz, x); break;
-        case TT_MINUS: pvz->u = integral_mask(tz, (unsigned long long)-(long long)x); break;
+        case TT_MINUS: pvz->u = integral_mask(tz, 0 - x); break;
         case TT_TILDE: pvz->u = integral_mask(tz, ~x); break;
         case TT_NOT:   pvz->i = x == 0; tz = TS_INT; break;
         default:       tz = TS_VOID; break;
@@ -375,7 +375,7 @@ static ts_t numval_unop(tt_t op, ts_t tx, const numval_t *pvx, numval_t *pvz)
       long long x = vx.i;
       switch (op) {
         case TT_PLUS:  pvz->i = integral_sext(tz, x); break;
-        case TT_MINUS: pvz->i = integral_sext(tz, -x); break;
+        case TT_MINUS: pvz->i = integral_sext(tz, (long long)(0 - (unsigned long long)x)); break;
         case TT_TILDE: pvz->i = integral_sext(tz, ~x); break;
         case TT_NOT:   pvz->i = x == 0; tz = TS_INT; break;
         default:       tz = TS_VOID; break;
@@ -439,8 +439,8 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_XOR:   pvz->u = integral_mask(tz, x ^ y); break;
         case TT_SLASH: if (y) pvz->u = integral_mask(tz, x / y); else tz = TS_VOID; break;
         case TT_REM:   if (y) pvz->u = integral_mask(tz, x % y); else tz = TS_VOID; break;
-        case TT_SHL:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x << y); break;
-        case TT_SHR:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x >> y); break;
+        case TT_SHL:   if (y < 64) pvz->u = integral_mask(tz, x << y); else tz = TS_VOID; break;
+        case TT_SHR:   if (y < 64) pvz->u = integral_mask(tz, x >> y); else tz = TS_VOID; break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
         case TT_NE:    pvz->i = x != y; tz = TS_INT; break;
         case TT_LT:    pvz->i = x < y;  tz = TS_INT; break;
@@ -452,17 +452,26 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
     } break;
     case TS_LLONG: case TS_LONG: case TS_INT: {
       long long x = vx.i, y = vy.i;
+      unsigned long long ux = vx.u, uy = vy.u; /* these wrap around */
       switch (op) {
-        case TT_PLUS:  pvz->i = integral_sext(tz, x + y); break;
-        case TT_MINUS: pvz->i = integral_sext(tz, x - y); break;
-        case TT_STAR:  pvz->i = integral_sext(tz, x * y); break;
+        case TT_PLUS:  pvz->i = integral_sext(tz, (long long)(ux + uy)); break;
+        case TT_MINUS: pvz->i = integral_sext(tz, (long long)(ux - uy)); break;
+        case TT_STAR:  pvz->i = integral_sext(tz, (long long)(ux * uy)); break;
         case TT_AND:   pvz->i = integral_sext(tz, x & y); break;
         case TT_OR:    pvz->i = integral_sext(tz, x | y); break;
         case TT_XOR:   pvz->i = integral_sext(tz, x ^ y); break;
-        case TT_SLASH: if (y) pvz->i = integral_sext(tz, x / y); else tz = TS_VOID; break;
-        case TT_REM:   if (y) pvz->i = integral_sext(tz, x % y); else tz = TS_VOID; break;
-        case TT_SHL:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x << y); break;
-        case TT_SHR:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x >> y); break;
+        case TT_SLASH: 
+          if (y == -1) pvz->i = integral_sext(tz, (long long)(0 - ux)); 
+          else if (y) pvz->i = integral_sext(tz, x / y); 
+          else tz = TS_VOID; 
+          break;
+        case TT_REM:   
+          if (y == -1) pvz->i = 0; 
+          else if (y) pvz->i = integral_sext(tz, x % y); 
+          else tz = TS_VOID; 
+          break;
+        case TT_SHL:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, (long long)(ux << y)); else tz = TS_VOID; break;
+        case TT_SHR:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x >> y); else tz = TS_VOID; break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
         case TT_NE:    pvz->i = x != y; tz = TS_INT; break;
         case TT_LT:    pvz->i = x < y;  tz = TS_INT; break;
-- 
2.43.0


From 0736a239cb3a0d7c9389fd1b2a7a03f57772595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 06/97] fix: sign-extend 32-bit constant initializers of
 globals

---
 w.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/w.c b/w.c
index 1234fc5..8b9efe8 100644
--- a/w.c
+++ b/w.c
@@ -4351,6 +4351,12 @@ static unsigned lookup_label(buf_t *plbb, sym_t id)
   return 0;
 }
 
+/* extend sign of 32-bit value to upper 32 bits */
+static long long sext32(unsigned long long u)
+{
+  return (long long)(((u & 0xFFFFFFFFull) ^ 0x80000000ull) - 0x80000000ull);
+}
+
 static void wat_to_wasm_code(wasm_module_t *pbm, size_t parc, vtbuf_t *pltb, icbuf_t *pdcb, icbuf_t *pscb)
 {
   size_t i;
@@ -4399,7 +4405,7 @@ static void wat_to_wasm_code(wasm_module_t *pbm, size_t parc, vtbuf_t *pltb, icb
       } break;
       case INSIG_I32: /* const */ {
         /* extend sign to upper 32 bits */
-        pdc->arg.i = (psc->arg.i << 32) >> 32;
+        pdc->arg.i = sext32(psc->arg.u);
       } break;
       case INSIG_I64: case INSIG_F32: case INSIG_F64: case INSIG_I128: /* const */ {
         /* nothing to patch here */
@@ -4466,6 +4472,7 @@ static void wat_to_wasm_ie(bool import, watiebuf_t *pieb, wasm_module_t *pbm)
         pe->vt = pie->vt; pe->mut = pie->mut;
         assert(IN_I32_CONST <= pie->ic.in && pie->ic.in <= IN_F64_CONST);
         pdc = icbnewbk(&pe->code); *pdc = pie->ic; pdc->id = 0;
+        if (pdc->in == IN_I32_CONST) pdc->arg.i = sext32(pdc->arg.u);
         icbnewbk(&pe->code)->in = IN_END; 
       } break;
       default:;
-- 
2.43.0


From d3b9075eb8a66d5961bbcb788eceba19e3244165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 07/97] fix: v128 values can cross .wo files and live in global
 variables

---
 w.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/w.c b/w.c
index 8b9efe8..e5af38f 100644
--- a/w.c
+++ b/w.c
@@ -3214,6 +3214,7 @@ static valtype_t parse_valtype(sws_t *pw)
     else if (streql(pw->tokstr, "f32")) vt = VT_F32;
     else if (streql(pw->tokstr, "i64")) vt = VT_I64;
     else if (streql(pw->tokstr, "i32")) vt = VT_I32;
+    else if (streql(pw->tokstr, "v128")) vt = VT_V128;
     /* else if (streql(pw->tokstr, "funcref")) vt = RT_FUNCREF; */
     /* else if (streql(pw->tokstr, "externref")) vt = RT_EXTERNREF; */
     if (vt != VT_UNKN) { dropt(pw); return vt; }
@@ -4085,6 +4086,7 @@ size_t watify_wat_module(wat_module_t* pm)
           case VT_F32: pe->ic.in = IN_F32_CONST; break;
           case VT_I64: pe->ic.in = IN_I64_CONST; break;
           case VT_I32: pe->ic.in = IN_I32_CONST; break;
+          case VT_V128: pe->ic.in = IN_V128_CONST; break;
           default:;
         }
       } else if (pe->ic.in == IN_REF_DATA) {
@@ -4470,7 +4472,7 @@ static void wat_to_wasm_ie(bool import, watiebuf_t *pieb, wasm_module_t *pbm)
         if (import) pe->imported = true;
         else pe->exported = pie->exported;
         pe->vt = pie->vt; pe->mut = pie->mut;
-        assert(IN_I32_CONST <= pie->ic.in && pie->ic.in <= IN_F64_CONST);
+        assert((IN_I32_CONST <= pie->ic.in && pie->ic.in <= IN_F64_CONST) || pie->ic.in == IN_V128_CONST);
         pdc = icbnewbk(&pe->code); *pdc = pie->ic; pdc->id = 0;
         if (pdc->in == IN_I32_CONST) pdc->arg.i = sext32(pdc->arg.u);
         icbnewbk(&pe->code)->in = IN_END; 
-- 
2.43.0


From f99c6864cbe46a46d5cf76bd359585d5324172ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 08/97] fix: generic(countof(...)) counts variadic macro
 arguments only

---
 p.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p.c b/p.c
index a586a92..09cb4fd 100644
--- a/p.c
+++ b/p.c
@@ -2426,7 +2426,7 @@ void patch_macro_template(buf_t *pids, ndbuf_t *ppars, node_t *pn)
       assert(pcnt >= n-1);
       for (i = 1; i+1 < ndlen(pn); i += 2) {
         node_t *pcn = ndref(pn, i), *pen = ndref(pn, i+1);
-        if (pcn->nt == NT_NULL || (pcn->nt == NT_LITERAL && pcn->ts == TS_INT && pcn->val.i == (int)pcnt)) {
+        if (pcn->nt == NT_NULL || (pcn->nt == NT_LITERAL && pcn->ts == TS_INT && pcn->val.i == (int)ecnt)) {
           patch_macro_template(pids, ppars, pen);
           presn = pen; break;
         }
-- 
2.43.0


From a653fd39a1a48b46531ccd5fcde4fce0cf4ff9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 09/97] fix: returned value is converted to narrow integer
 return type

---
 c.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index f0b0ab4..5490dca 100644
--- a/c.c
+++ b/c.c
@@ -2033,14 +2033,16 @@ static void expr_wasmify(node_t *pn, buf_t *pvib, buf_t *plib)
       else assert(pil[1] == 0); /* not a break/continue target */
     } break;
     case NT_RETURN: {
-      sym_t rp = intern("rp$"), bp = intern("bp$"); 
-      vi_t *prvi, *pbvi; node_t *psn;
+      sym_t rp = intern("rp$"), bp = intern("bp$"), rt = intern("rt$"); 
+      vi_t *prvi, *pbvi, *ptvi; node_t *psn;
       if (ndlen(pn) > 0) {
         assert(ndlen(pn) == 1);
         expr_wasmify(ndref(pn, 0), pvib, plib);
       }
       prvi = bufbsearch(pvib, &rp, &sym_cmp);
       pbvi = bufbsearch(pvib, &bp, &sym_cmp);
+      ptvi = bufbsearch(pvib, &rt, &sym_cmp);
+      if (ptvi) pn->ts = ptvi->cast; /* returned int has to be converted to this narrow type */
       if (prvi) { /* return x => { *rp$ = x; return; } */
         if (ndlen(pn) != 1) neprintf(pn, "return value expected"); 
         wrap_node(lift_arg0(pn), NT_ASSIGN); pn->op = TT_ASN;
@@ -2146,6 +2148,11 @@ static void fundef_wasmify(node_t *pdn)
       case TS_BOOL:  case TS_ENUM:
       case TS_CHAR:  case TS_UCHAR:  case TS_SHORT: case TS_USHORT: 
         cast = ptni->ts; ptni->ts = TS_INT;
+        if (i == 0) { /* keep original return type for NT_RETURN */
+          vi_t *pvi = bufnewbk(&vib);
+          pvi->name = pvi->reg = intern("rt$");
+          pvi->sc = SC_REGISTER; pvi->cast = cast;
+        }
       case TS_INT:   case TS_UINT:   case TS_LONG:  case TS_ULONG:  
       case TS_LLONG: case TS_ULLONG: case TS_FLOAT: case TS_DOUBLE: 
       case TS_V128: /* ok, but requires SIMD support */
@@ -3577,6 +3584,12 @@ static node_t *compile_return(node_t *prn, node_t *pan, const node_t *ptn, sym_t
   if (pan) { /* got argument */
     node_t *patn = acode_type(pan);
     if (!assign_compatible(ptn, patn)) neprintf(prn, "unexpected returned type");
+    if (prn->ts != TS_VOID && prn->ts != TS_ENUM && prn->ts != patn->ts) { 
+      /* narrow integer type: convert value to it first */
+      node_t tn = mknd(); ndsettype(&tn, prn->ts);
+      pan = compile_cast(prn, &tn, pan); 
+      patn = acode_type(pan); ndfini(&tn);
+    }
     if (!same_type(ptn, patn)) pan = compile_cast(prn, ptn, pan);
     acode_swapin(pcn, pan);
   } else { /* no argument */
-- 
2.43.0


From c7c73cb360ba590f7562ddf96a9874da1527abbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:54 +0000
Subject: [PATCH 10/97] fix: values stored to bool objects in memory are
 converted to 0 or 1

---
 c.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 5490dca..8113e6b 100644
--- a/c.c
+++ b/c.c
@@ -3163,7 +3163,7 @@ static node_t *compile_ataddr(node_t *prn, node_t *pan)
     /* {scalar_t* | x} => {IP(scalar_t) | {scalar_t* | x} fetch} */
     ts_t oets = petn->ts, pets = ts_numerical(oets) ? ts_integral_promote(oets) : oets;
     node_t *pcn = npnewcode(prn), *ptn = ndpushbk(pcn, petn);
-    ptn->ts = pets;
+    ptn->ts = (oets == TS_BOOL) ? TS_BOOL : pets; /* stores to bool should convert value to 0/1 */
     acode_swapin(pcn, pan);
     asm_load(pets, oets, 0, &pcn->data);
     return pcn;
@@ -3193,7 +3193,7 @@ static node_t *compile_dot(node_t *prn, node_t *pan, sym_t fld)
     if (ts_numerical(petn->ts)) {
       ts_t ipts = ts_integral_promote(petn->ts);
       asm_load(ipts, petn->ts, 0, &pcn->data);
-      petn->ts = ipts;
+      if (petn->ts != TS_BOOL) petn->ts = ipts; /* stores to bool should convert value to 0/1 */
     } else {
       asm_load(petn->ts, petn->ts, 0, &pcn->data);
     }
@@ -3246,6 +3246,8 @@ static node_t *compile_asncombo(node_t *prn, node_t *pan, node_t *pctn, tt_t op,
 {
   /* convert pan in place and return it */
   inscode_t lic, sic, *pic;
+  node_t bt = mknd(); /* bool lvalue: convert any number to 0/1 */
+  if (!pctn && acode_type(pan)->ts == TS_BOOL && ts_numerical(acode_type(pvn)->ts)) pctn = ndsettype(&bt, TS_BOOL);
   if (acode_rval_get(pan)) {
     /* pan is a single IN_GLOBAL_GET/IN_LOCAL_GET instruction */
     node_t *pdn = op ? npdup(pan) : NULL; /* needed for combo */
-- 
2.43.0


From 3a5a09743647ec10bda87439fd9addeee5c8f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 11/97] fix: constant conditional tests its condition against
 zero and has the common type of both branches

---
 c.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/c.c b/c.c
index 8113e6b..c4d0072 100644
--- a/c.c
+++ b/c.c
@@ -958,11 +958,15 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
       return ok;
     } break;
     case NT_COND: {
-      seval_t r; bool ok = false; int cond;
+      seval_t rc, r, r2; bool ok = false;
       assert(ndlen(pn) == 3);
-      if (arithmetic_eval_to_int(ndref(pn, 0), prib, &cond)) {
-        if (cond) ok = static_eval(ndref(pn, 1), prib, &r);
-        else ok = static_eval(ndref(pn, 2), prib, &r);
+      if (static_eval(ndref(pn, 0), prib, &rc) && ts_numerical(rc.ts)) {
+        bool cond; numval_convert(TS_BOOL, rc.ts, &rc.val); cond = rc.val.u != 0;
+        ok = static_eval(ndref(pn, cond ? 1 : 2), prib, &r);
+        if (ok && ts_numerical(r.ts) && static_eval(ndref(pn, cond ? 2 : 1), prib, &r2) && ts_numerical(r2.ts)) {
+          ts_t ts = ts_arith_common(r.ts, r2.ts); /* type of result depends on both branches */
+          numval_convert(ts, r.ts, &r.val); r.ts = ts;
+        }
         if (ok) *pr = r; /* can be num or ptr! */
       } 
       return ok;
@@ -1028,14 +1032,15 @@ bool arithmetic_eval(node_t *pn, buf_t *prib, node_t *prn)
 static void check_static_assert(node_t *pn, buf_t *prib)
 {
   if (pn->intr == INTR_SASSERT) {
-    node_t *pen, *psn; int res;
+    node_t *pen, *psn; seval_t r;
     assert(ndlen(pn) == 1 || ndlen(pn) == 2);
     pen = ndref(pn, 0), psn = ndlen(pn) == 2 ? ndref(pn, 1) : NULL;
     if (psn && (psn->nt != NT_LITERAL || psn->ts != TS_STRING))
       neprintf(pn, "unexpected 2nd arg of static_assert (string literal expected)");
-    if (!arithmetic_eval_to_int(pen, prib, &res))
+    if (!static_eval(pen, prib, &r) || !ts_numerical(r.ts))
       n2eprintf(pen, pn, "unexpected lhs of static_assert comparison (static test expected)");
-    if (res == 0) {
+    numval_convert(TS_BOOL, r.ts, &r.val);
+    if (r.val.u == 0) {
       if (!psn) neprintf(pn, "static_assert failed");
       else neprintf(pn, "static_assert failed (%s)", cbdata(&psn->data));
     }
-- 
2.43.0


From a4d5663e0a352f2e7821b89fb198266941827197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 12/97] fix: switch over cases that are more than INT_MAX apart

---
 c.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c.c b/c.c
index c4d0072..c5a6d19 100644
--- a/c.c
+++ b/c.c
@@ -3518,7 +3518,7 @@ static node_t *compile_branch(node_t *prn, node_t *pan, sym_t lname)
 /* try to compile switch to a jump table (br_table) or return NULL if too sparse */
 static node_t *compile_switch_table(node_t *prn, const node_t *pan, const node_t *pcv, size_t cc)
 {
-  size_t i, ti; sym_t dlname; int off, curidx, idx;
+  size_t i, ti; sym_t dlname; int off; unsigned curidx, idx;
   const node_t *pni, *psn, *pgn; node_t *pcn; size_t dfillc = 0;
   assert(cc >= 1); /* default goto, followed by 0 or more case gotos */
   if (cc < 3) return NULL; /* we need at least 2 cases */
@@ -3539,7 +3539,7 @@ static node_t *compile_switch_table(node_t *prn, const node_t *pan, const node_t
     const node_t *pni = pcv+i; assert(pni->nt == NT_CASE && ndlen(pni) == 2);
     psn = ndcref(pni, 0); assert(psn->nt == NT_LITERAL && psn->ts == TS_INT);
     pgn = ndcref(pni, 1); assert(pgn->nt == NT_GOTO && pgn->name != 0);
-    idx = (int)psn->val.i - off; assert(idx >= 0);
+    idx = (unsigned)psn->val.i - (unsigned)off; /* cases are sorted, so this can't wrap */
     while (curidx < idx) { /* fill gap with defaults */
       acode_pushin_id(pcn, IN_BR, dlname); /* NB: not an actual instruction! */
       ++curidx; ++dfillc;
@@ -3548,7 +3548,7 @@ static node_t *compile_switch_table(node_t *prn, const node_t *pan, const node_t
     acode_pushin_id(pcn, IN_BR, pgn->name); /* NB: not an actual instruction! */
     ++curidx;
   }
-  icbref(&pcn->data, ti)->arg.u = (unsigned)curidx; /* patch size, add default */
+  icbref(&pcn->data, ti)->arg.u = curidx; /* patch size, add default */
   acode_pushin_id(pcn, IN_BR, dlname); /* NB: not an actual instruction! */
   return pcn;
 }
-- 
2.43.0


From 667964d10acf803176ba8de7e942691b72121616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 13/97] fix: union initializers are accepted

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index c5a6d19..fcf1ac2 100644
--- a/c.c
+++ b/c.c
@@ -1192,7 +1192,7 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
         } else {
           neprintf(pdn, "initializer is too short");
         }
-        if (ptn->ts == TS_UNION) break; /* first member only! */
+        if (ptn->ts == TS_UNION) { ++j; break; } /* first member only! */
       }
       if (j != ndlen(pdn)) 
         neprintf(pdn, "initializer is too long");
-- 
2.43.0


From f919c2310aa942c0ca030a687a4f49ed17d8a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 14/97] fix: signed and other unary constants in static
 displays

---
 c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index fcf1ac2..2b4edf7 100644
--- a/c.c
+++ b/c.c
@@ -1603,7 +1603,8 @@ static bool static_display(node_t *pn, buf_t *prib)
     } break;
     case NT_PREFIX: {
       assert(ndlen(pn) == 1);
-      if (pn->op == TT_AND && ndref(pn, 0)->nt == NT_IDENTIFIER) {
+      if (pn->op != TT_AND) return arithmetic_constant_expr(pn);
+      if (ndref(pn, 0)->nt == NT_IDENTIFIER) {
         pn = ndref(pn, 0);
         if (bufbsearch(prib, &pn->name, &sym_cmp) == NULL) { /* global var */
           sym_t mod; const node_t *ptn = lookup_var_type(pn->name, prib, &mod);
-- 
2.43.0


From 51fc3574c88cb3e4e5514b8339dcd04f8a8f69a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:01 +0000
Subject: [PATCH 15/97] fix: octal escapes above 0377 in string literals are
 diagnosed

---
 p.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p.c b/p.c
index 09cb4fd..15b296f 100644
--- a/p.c
+++ b/p.c
@@ -2584,7 +2584,8 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
       char *ns = pw->tokstr; unsigned long ul; bool raw;
       ndset(pn, NT_LITERAL, pw->id, startpos); 
       while (*ns && (errno = 0, ul = strtou8cc32(ns, &ns, &raw), !errno && ul <= 0x10FFFFUL)) {
-        if (raw) { assert(ul <= 0xFFL); cbputc(ul, &pn->data); }
+        if (raw && ul > 0xFFUL) reprintf(pw, startpos, "string literal char overflow");
+        if (raw) cbputc((int)ul, &pn->data);
         else cbputlc(ul, &pn->data); /* in utf-8 */
       }
       cbputc(0, &pn->data); /* terminating zero char, C-style */
-- 
2.43.0


From e65166d934305db603fd6ad1fbb98d0bdb4fa343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 16/97] fix: value of a character constant with a high octal or
 hex escape is that of a char

---
 p.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/p.c b/p.c
index 15b296f..e2c978a 100644
--- a/p.c
+++ b/p.c
@@ -2563,10 +2563,11 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
       dropt(pw);
     } break;
     case TT_CHAR: {
-      char *ns = pw->tokstr; unsigned long ul;
+      char *ns = pw->tokstr; unsigned long ul; bool raw = false;
       ndset(pn, NT_LITERAL, pw->id, startpos); 
-      if (errno = 0, ul = strtou8cc32(ns, NULL, NULL), !errno && ul <= 0x10FFFFUL) {
-        pn->val.i = ul; /* no sext: too small */
+      if (errno = 0, ul = strtou8cc32(ns, NULL, &raw), !errno && ul <= (raw ? 0xFFUL : 0x10FFFFUL)) {
+        if (raw && ul > 0x7FUL) pn->val.i = (int)ul - 0x100; /* value of signed char */
+        else pn->val.i = ul; /* no sext: too small */
       } else reprintf(pw, startpos, "char literal overflow");
       pn->ts = TS_INT;
       dropt(pw);
-- 
2.43.0


From 0e553e763c984cd65cdfbc40b2faf419e402ecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 17/97] fix: a local in an inner block does not capture other
 uses of the global of that name

---
 c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 2b4edf7..0cea147 100644
--- a/c.c
+++ b/c.c
@@ -1437,7 +1437,8 @@ static void expr_hoist_locals(node_t *ptn, node_t *pn, henv_t *phe, ndbuf_t *plb
             } else {
               n2eprintf(pni, pn, "duplicate variable declaration in the same scope"); 
             }
-          } else if (locals_lookup(nname, plb)) {
+          } else if (locals_lookup(nname, plb) || lookup_global(nname) != NULL) {
+            /* taken: hoisting it as is may capture refs outside of the block */
             sym_t *pon = bufnewbk(&he.idmap);
             nname = internf("%s#%d", symname(pni->name), (int)buflen(plb));
             pon[0] = pni->name, pon[1] = nname;
-- 
2.43.0


From 526fa353657726c172d0befccc8f0d170dc2fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 18/97] fix: condition of ?: is evaluated before its branches
 read what it changes

---
 c.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/c.c b/c.c
index 0cea147..f6bd7ad 100644
--- a/c.c
+++ b/c.c
@@ -2791,6 +2791,25 @@ static bool acode_simple_noeff(node_t *pan)
   return false;
 }
 
+/* check if this code can't change vars or memory (it may trap though) */
+static bool acode_noeff(node_t *pan)
+{
+  size_t i;
+  assert(pan->nt == NT_ACODE);
+  for (i = 0; i < icblen(&pan->data); ++i) {
+    instr_t in = icbref(&pan->data, i)->in;
+    if (in >= IN_I32_CONST && in <= IN_I64_EXTEND32_S) continue;
+    if (in >= IN_I32_LOAD && in <= IN_I64_LOAD32_U) continue;
+    if (in == IN_GLOBAL_GET || in == IN_LOCAL_GET) continue;
+    if (in == IN_REF_DATA || in == IN_PLACEHOLDER) continue;
+    return false;
+  }
+  for (i = 1; i < ndlen(pan); ++i) {
+    if (!acode_noeff(ndref(pan, i))) return false;
+  }
+  return true;
+}
+
 /* check if this node is a const; returns 0 or ts_t/nv */
 static ts_t acode_const(node_t *pan, numval_t **ppnv)
 {
@@ -3126,6 +3145,9 @@ static node_t *compile_cond(node_t *prn, node_t *pan1, node_t *pan2, node_t *pan
   else if (same_type(patn2, patn3)) pctn = patn2;
   else neprintf(prn, "incompatible types of logical operator branches");
   use_select = acode_simple_noeff(pan2) && acode_simple_noeff(pan3);
+  /* SELECT's condition is evaluated last, so it should not affect branches */
+  if (use_select && !(acode_const(pan2, NULL) && acode_const(pan3, NULL))) 
+    use_select = acode_noeff(pan1);
   if (!same_type(pctn, patn2)) pan2 = compile_cast(prn, pctn, pan2);
   if (!same_type(pctn, patn3)) pan3 = compile_cast(prn, pctn, pan3);
   pan1 = compile_booltest(prn, pan1); /* add !=0 if not i32 */
-- 
2.43.0


From ffe4ae92c4b5f2682c2b94dd61338da57ec865dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:28 +0000
Subject: [PATCH 19/97] fix: subnormal floating literals are not errors

---
 p.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p.c b/p.c
index e2c978a..d318724 100644
--- a/p.c
+++ b/p.c
@@ -2547,7 +2547,7 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
     case TT_FLOAT: {
       char *ns = pw->tokstr; double d;
       ndset(pn, NT_LITERAL, pw->id, startpos); 
-      if (errno = 0, d = strtod(ns, NULL), !errno) {
+      if (errno = 0, d = strtod(ns, NULL), !errno || (errno == ERANGE && d < HUGE_VAL)) { /* subnormals are ok */
         pn->val.f = (float)d;
       } else reprintf(pw, startpos, "invalid float literal"); 
       pn->ts = TS_FLOAT;
@@ -2556,7 +2556,7 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
     case TT_DOUBLE: {
       char *ns = pw->tokstr; double d;
       ndset(pn, NT_LITERAL, pw->id, startpos); 
-      if (errno = 0, d = strtod(ns, NULL), !errno) {
+      if (errno = 0, d = strtod(ns, NULL), !errno || (errno == ERANGE && d < HUGE_VAL)) { /* subnormals are ok */
         pn->val.d = d;
       } else reprintf(pw, startpos, "invalid double literal"); 
       pn->ts = TS_DOUBLE;
-- 
2.43.0


From e9380e690f647c1922ffe8f63b4033b22ef29d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 20/97] fix: u16x8_sub_sat saturates; v128 store_lane
 intrinsics return nothing; load*_zero take no lane index

---
 lib/include/wasm_simd128.h | 14 +++++++-------
 w.c                        |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/include/wasm_simd128.h b/lib/include/wasm_simd128.h
index e6a7e4f..1248750 100644
--- a/lib/include/wasm_simd128.h
+++ b/lib/include/wasm_simd128.h
@@ -39,10 +39,10 @@
 #define wasm_u64x2_load32x2(p) ((v128_t(*)(const void*))asm(v128.load32x2_u offset=0 align=4)(p))
 
 /* v128_t wasm_v128_load32_zero(const void *p); -- loads lane 0 only? */
-#define wasm_v128_load32_zero(p) ((v128_t(*)(int32_t))asm(v128.load32_zero offset=0 align=4 0)(p))
+#define wasm_v128_load32_zero(p) ((v128_t(*)(const void*))asm(v128.load32_zero offset=0 align=4)(p))
 
 /* v128_t wasm_v128_load64_zero(const void *p); -- loads lane 0 only? */
-#define wasm_v128_load64_zero(p) ((v128_t(*)(int32_t))asm(v128.load64_zero offset=0 align=8 0)(p))
+#define wasm_v128_load64_zero(p) ((v128_t(*)(const void*))asm(v128.load64_zero offset=0 align=8)(p))
 
 /* v128_t wasm_v128_load8_lane(const void *p, v128_t v, int i) __REQUIRE_CONSTANT(i); */
 #define wasm_v128_load8_lane(p, v, i) ((v128_t(*)(const void*, v128_t))asm(v128.load8_lane offset=0 align=1 i)(p, v))
@@ -60,16 +60,16 @@
 #define wasm_v128_store(p, a) ((void(*)(void*, v128_t))asm(v128.store offset=0 align=16)(p, a))
 
 /* void wasm_v128_store8_lane(void *p, v128_t v, int i) __REQUIRE_CONSTANT(i); */
-#define wasm_v128_store8_lane(p, v, i) ((v128_t(*)(void*, v128_t))asm(v128.store8_lane offset=0 align=1 i)(p, v))
+#define wasm_v128_store8_lane(p, v, i) ((void(*)(void*, v128_t))asm(v128.store8_lane offset=0 align=1 i)(p, v))
 
 /* void wasm_v128_store16_lane(void *p, v128_t v, int i) __REQUIRE_CONSTANT(i); */
-#define wasm_v128_store16_lane(p, v, i) ((v128_t(*)(void*, v128_t))asm(v128.store16_lane offset=0 align=2 i)(p, v))
+#define wasm_v128_store16_lane(p, v, i) ((void(*)(void*, v128_t))asm(v128.store16_lane offset=0 align=2 i)(p, v))
 
 /* void wasm_v128_store32_lane(void *p, v128_t v, int i) __REQUIRE_CONSTANT(i); */
-#define wasm_v128_store32_lane(p, v, i) ((v128_t(*)(void*, v128_t))asm(v128.store32_lane offset=0 align=4 i)(p, v))
+#define wasm_v128_store32_lane(p, v, i) ((void(*)(void*, v128_t))asm(v128.store32_lane offset=0 align=4 i)(p, v))
 
 /* void wasm_v128_store64_lane(void *p, v128_t v, int i) __REQUIRE_CONSTANT(i); */
-#define wasm_v128_store64_lane(p, v, i) ((v128_t(*)(void*, v128_t))asm(v128.store64_lane offset=0 align=8 i)(p, v))
+#define wasm_v128_store64_lane(p, v, i) ((void(*)(void*, v128_t))asm(v128.store64_lane offset=0 align=8 i)(p, v))
 
 
 /* v128_t wasm_i8x16_const(int8_t c0, ..., int8_t c15) __REQUIRE_CONSTANT(c0, ..., c15); */
@@ -559,7 +559,7 @@
 #define wasm_i16x8_sub_sat(a, b) ((v128_t(*)(v128_t, v128_t))asm(i16x8.sub_sat_s)(a, b))
 
 /* v128_t wasm_u16x8_sub_sat(v128_t a, v128_t b); */
-#define wasm_u16x8_sub_sat(a, b) ((v128_t(*)(v128_t, v128_t))asm(i16x8.sub)(a, b))
+#define wasm_u16x8_sub_sat(a, b) ((v128_t(*)(v128_t, v128_t))asm(i16x8.sub_sat_u)(a, b))
 
 /* v128_t wasm_i16x8_mul(v128_t a, v128_t b); */
 #define wasm_i16x8_mul(a, b) ((v128_t(*)(v128_t, v128_t))asm(i16x8.mul)(a, b))
diff --git a/w.c b/w.c
index e5af38f..dbea8e2 100644
--- a/w.c
+++ b/w.c
@@ -1695,6 +1695,7 @@ insig_t instr_sig(instr_t in)
     case IN_V128_LOAD32X2_S:      case IN_V128_LOAD32X2_U:
     case IN_V128_LOAD8_SPLAT:     case IN_V128_LOAD16_SPLAT:
     case IN_V128_LOAD32_SPLAT:    case IN_V128_LOAD64_SPLAT:
+    case IN_V128_LOAD32_ZERO:     case IN_V128_LOAD64_ZERO:
     case IN_V128_STORE:      
       return INSIG_MEMARG;
     case IN_I8X16_SHUFFLE:       
@@ -1712,7 +1713,6 @@ insig_t instr_sig(instr_t in)
     case IN_V128_LOAD32_LANE:     case IN_V128_LOAD64_LANE:
     case IN_V128_STORE8_LANE:     case IN_V128_STORE16_LANE:
     case IN_V128_STORE32_LANE:    case IN_V128_STORE64_LANE:
-    case IN_V128_LOAD32_ZERO:     case IN_V128_LOAD64_ZERO:
       return INSIG_MEMARG_LANEIDX;
     /* internal use */
     case IN_REF_DATA:
-- 
2.43.0


From 002e0f359d4a8261d0c629063f3827e7fcafbddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 21/97] fix: folded reinterpret intrinsics have their declared
 type

---
 c.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c.c b/c.c
index f6bd7ad..8a84494 100644
--- a/c.c
+++ b/c.c
@@ -902,6 +902,13 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
           } break;
           default:;
         }
+        if (ok) { /* bring the result to the type asm code is declared to return */
+          node_t *ptn = ndlen(pan) == 1 ? ndref(pan, 0) : NULL; 
+          if (ptn && ptn->ts == TS_PTR && ndref(ptn, 0)->ts == TS_FUNCTION) {
+            ts_t rts = ndref(ndref(ptn, 0), 0)->ts;
+            if (ts_numerical(rts)) { numval_convert(rts, pr->ts, &pr->val); pr->ts = rts; }
+          }
+        }
         return ok;
       }
     } break;
-- 
2.43.0


From c6f1bcb1b0565a366d7e1b82e1218764e8df4aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 22/97] fix: v128 objects in memory can be loaded, stored and
 have their address taken

---
 c.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 8a84494..032e03c 100644
--- a/c.c
+++ b/c.c
@@ -2532,6 +2532,11 @@ static inscode_t *asm_load(ts_t tsto, ts_t tsfrom, unsigned off, icbuf_t *pdata)
         case TS_DOUBLE: in = IN_F64_LOAD; align = 3; break;
         default:;
       } break;
+    case TS_V128:
+      switch (tsfrom) {
+        case TS_V128:   in = IN_V128_LOAD; align = 4; break;
+        default:;
+      } break;
     default: assert(false);
   }
   assert(in);
@@ -2551,6 +2556,7 @@ static void asm_instr_load_to_store(const inscode_t *plic, inscode_t *psic)
     case IN_I64_LOAD: in = IN_I64_STORE; break;
     case IN_F32_LOAD: in = IN_F32_STORE; break;
     case IN_F64_LOAD: in = IN_F64_STORE; break;
+    case IN_V128_LOAD: in = IN_V128_STORE; break;
     case IN_I32_LOAD8_S:  case IN_I32_LOAD8_U:  in = IN_I32_STORE8; break;
     case IN_I32_LOAD16_S: case IN_I32_LOAD16_U: in = IN_I32_STORE16; break;
     case IN_I64_LOAD8_S:  case IN_I64_LOAD8_U:  in = IN_I64_STORE8; break;
@@ -2864,7 +2870,7 @@ static int acode_rval_load(node_t *pan)
 {
   if (pan->nt == NT_ACODE && icblen(&pan->data) >= 1) {
     instr_t in = icbref(&pan->data, icblen(&pan->data)-1)->in;
-    return (in >= IN_I32_LOAD && in <= IN_I64_LOAD32_U) ? in : 0;
+    return (in >= IN_I32_LOAD && in <= IN_I64_LOAD32_U) || in == IN_V128_LOAD ? in : 0;
   } 
   return 0;
 }
-- 
2.43.0


From 0e7b4378693a2b045a8a724654d00ddfe2d81719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:05 +0000
Subject: [PATCH 23/97] fix: subexpressions of unfoldable intrinsic calls are
 folded

---
 c.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 032e03c..f65d9be 100644
--- a/c.c
+++ b/c.c
@@ -1687,6 +1687,7 @@ static bool fold_simd_display(node_t *pn, buf_t *prib)
 /* replace arithmetic constant expressions in pn with literals */
 static void expr_fold_constants(node_t *pn, buf_t *prib)
 {
+  bool folded = false;
   switch (pn->nt) {
     case NT_NULL:
     case NT_LITERAL: 
@@ -1743,9 +1744,10 @@ static void expr_fold_constants(node_t *pn, buf_t *prib)
   } 
   if (arithmetic_constant_expr(pn)) {
     node_t nd = mknd();
-    if (arithmetic_eval(pn, prib, &nd)) ndswap(&nd, pn);
+    if (arithmetic_eval(pn, prib, &nd)) { ndswap(&nd, pn); folded = true; }
     ndfini(&nd);
-  } else {
+  } 
+  if (!folded) { /* subexpressions can still be foldable */
     size_t i;
     for (i = 0; i < ndlen(pn); ++i) {
       expr_fold_constants(ndref(pn, i), prib);
-- 
2.43.0


From 082862834664c526e2c4cf67c305de35bd8f1d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:31 +0000
Subject: [PATCH 24/97] fix: isspace accepts vertical tab and form feed,
 iscntrl rejects non-ASCII

---
 lib/src/ctype.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ctype.c b/lib/src/ctype.c
index 4b7cab3..a2daf76 100644
--- a/lib/src/ctype.c
+++ b/lib/src/ctype.c
@@ -12,7 +12,7 @@ int isalpha(int c)
 
 int iscntrl(int c)
 {
-  return !isprint(c);
+  return (c >= 0 && c < ' ') || c == 0x7f;
 }
 
 int isdigit(int c)
@@ -42,7 +42,7 @@ int ispunct(int c)
 
 int isspace(int c)
 {
-  return c == ' ' || c == '\n' || c == '\t' || c == '\r';
+  return c == ' ' || (c >= '\t' && c <= '\r');
 }
 
 int isupper(int c)
-- 
2.43.0


From 32c602c4d3de8f44db68d37111bee88546928a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:31 +0000
Subject: [PATCH 25/97] fix: empty needles, strrchr of 0, strndup bounds,
 strncasecmp case

---
 lib/src/string.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index a427d7f..56dff29 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -53,8 +53,8 @@ void *memmem(const void *haystack, size_t n, const void *needle, size_t m)
   const unsigned char *y = (const unsigned char *)haystack;
   const unsigned char *x = (const unsigned char *)needle;
   size_t j, k, l;
-  if (m > n || !m || !n)
-    return NULL;
+  if (!m) return (void *)haystack;
+  if (m > n) return NULL;
   if (1 != m) {
     if (x[0] == x[1]) { 
       k = 2; l = 1;
@@ -182,7 +182,7 @@ int strncasecmp(const char *s1, const char *s2, size_t n)
   const unsigned char *c2 = (const unsigned char *)s2;
   unsigned char ch; int d = 0;
   while (n--) {
-    d = toupper(ch = *c1++) - toupper(*c2++);
+    d = tolower(ch = *c1++) - tolower(*c2++);
     if (d || !ch) break;
   }
   return d;
@@ -228,11 +228,11 @@ char *strncpy(char *dst, const char *src, size_t n)
 
 char *strndup(const char *s, size_t n)
 {
-  size_t sl = strlen(s), l = (n > sl ? sl : n) + 1;
+  size_t l = strnlen(s, n) + 1;
   char *d = malloc(l);
   if (!d) return NULL;
-  _bcopy(d, s, l);
-  d[n] = '\0';
+  _bcopy(d, s, l-1);
+  d[l-1] = '\0';
   return d;
 }
 
@@ -261,10 +261,9 @@ char *strpbrk(const char *s1, const char *s2)
 char *strrchr(const char *s, int c)
 {
   const char *found = NULL;
-  while (*s) {
+  do {
     if (*s == (char)c) found = s;
-    s++;
-  }
+  } while (*s++);
   return (char *)found;
 }
 
-- 
2.43.0


From 6462ccd8980b2118785d249391faf37500296a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:45 +0000
Subject: [PATCH 26/97] fix: realloc keeps the block when it fails; malloc size
 overflow; calloc with size 0

---
 lib/src/stdlib.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 3493ac8..f9b9c34 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -566,6 +566,7 @@ static header_t* buckets[NBUCKETS];
 static header_t *sbrkblock(size_t bi)
 {
   assert(bi >= SBRKBUCKET);
+  if (BI2BLKSZ(bi) >= MAXBLOCKSZ) { errno = ENOMEM; return NULL; } /* more than sbrk can do */
   void *p = sbrk((intptr_t)BI2BLKSZ(bi));
   if (p == (void *)-1) return NULL;
   assert(!((uintptr_t)(p) & (uintptr_t)(WASMPAGESIZE-1)));
@@ -653,13 +654,14 @@ void *realloc(void *p, size_t n)
     assert(bi < NBUCKETS);
     assert(bi > SBRKBUCKET || !((uintptr_t)pb & (uintptr_t)(BI2BLKSZ(bi)-1UL)));
     if (n > 0) { /* realloc */
-      if (n + sizeof(header_t) <= BI2BLKSZ(bi)) {
+      if (n <= BI2BLKSZ(bi) - sizeof(header_t)) {
         pb->used.plsz = n;
         return p;
       } else {
         void *np = realloc(NULL, n); /* malloc */
         size_t orgn = pb->used.plsz;
-        if (np != NULL) memcpy(np, p, n < orgn ? n : orgn);
+        if (np == NULL) return NULL; /* original block stays */
+        memcpy(np, p, n < orgn ? n : orgn);
         pushblock(bi, pb);
         return np;
       }
@@ -689,8 +691,7 @@ void *malloc(size_t n)
 void *calloc(size_t n, size_t sz)
 {
   void *p = NULL; 
-  assert(sz);
-  if (n <= MAXPAYLOAD/sz) {
+  if (!sz || n <= MAXPAYLOAD/sz) {
     n *= sz;
     p = realloc(NULL, n);
     if (p != NULL) memset(p, 0, n);
-- 
2.43.0


From 34ebd073d80183b9ab777db879fbec59c5c56ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 27/97] fix: rand() returned negative numbers; sequence before
 srand is the one of srand(1)

---
 lib/src/stdlib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index f9b9c34..decaa86 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -395,7 +395,7 @@ uintmax_t strtoumax(const char *nptr, char **endptr, int base)
   return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
 }
 
-static unsigned short rand48_seed[3]; 
+static unsigned short rand48_seed[3] = { 0x330e, 1, 0 }; /* as set by srand(1) */
 static long jrand48(unsigned short *xsubi) /* unsigned short xsubi[3] */
 {
   uint64_t x;
@@ -412,7 +412,7 @@ static long jrand48(unsigned short *xsubi) /* unsigned short xsubi[3] */
 
 int rand(void)
 {
-  return (int)jrand48(rand48_seed) >> 1;
+  return (int)((unsigned)jrand48(rand48_seed) >> 1);
 }
 
 void srand(unsigned seedval)
-- 
2.43.0


From 263294120f30d4a8024ade4ddce156a84e7fe4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:27 +0000
Subject: [PATCH 28/97] fix: printf integer conversions: precision with '-',
 padding beyond 32, '#', %llb, negative '*' precision; %.ns reading too far

---
 lib/src/stdio.c | 75 +++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 37 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 53093f5..80974fa 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -541,7 +541,7 @@ static bool _is_hex_digit(char ch)
 static unsigned int _strnlen_s(const char* str, size_t maxsize)
 {
   const char* s;
-  for (s = str; *s && maxsize--; ++s);
+  for (s = str; maxsize-- && *s; ++s);
   return (unsigned int)(s - str);
 }
 
@@ -1059,8 +1059,8 @@ int vsnscanf(const char *buf, size_t count, const char *format, va_list va)
 /* derived from: https://github.com/mpaland/printf (c) Marco Paland (info@paland.com) */
 
 /* 'ntoa' conversion buffer size, this must be big enough to hold one converted
- * integer number including padded zeros (dynamically created on stack) */
-#define PRINTF_NTOA_BUFFER_SIZE    32U
+ * integer number, base 2 included (dynamically created on stack) */
+#define PRINTF_NTOA_BUFFER_SIZE    64U
 
 /* 'ftoa' conversion buffer size, this must be big enough to hold one converted
  * float number including padded zeros (dynamically created on stack) */
@@ -1128,61 +1128,64 @@ static size_t _out_rev(out_fct_t out, void *data, size_t idx, size_t maxlen, con
   return idx;
 }
 
-/* internal itoa format */
-static size_t _ntoa_format(out_fct_t out, void *data, size_t idx, size_t maxlen, char *buf, size_t len, bool negative, unsigned int base, unsigned int prec, unsigned int width, unsigned int flags)
+/* internal itoa format; zeros required by prec and width are not stored in buf */
+static size_t _ntoa_format(out_fct_t out, void *data, size_t idx, size_t maxlen, char *buf, size_t len, bool negative, bool prefix, unsigned int base, unsigned int prec, unsigned int width, unsigned int flags)
 {
-  if (!(flags & FLAGS_LEFT)) {
-    if (width && (flags & FLAGS_ZEROPAD) && (negative || (flags & (FLAGS_PLUS | FLAGS_SPACE)))) --width;
-    while ((len < prec) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = '0';
-    while ((flags & FLAGS_ZEROPAD) && (len < width) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = '0';
-  }
+  char pfx[4]; size_t plen = 0U, zeros = 0U, i;
+  if (negative) pfx[plen++] = '-';
+  else if (flags & FLAGS_PLUS) pfx[plen++] = '+'; 
+  else if (flags & FLAGS_SPACE) pfx[plen++] = ' ';
   if (flags & FLAGS_HASH) {
-    if (!(flags & FLAGS_PRECISION) && len && ((len == prec) || (len == width))) {
-      --len; if (len && (base == 16U)) --len;
+    if (base == 8U) {
+      if ((!len || buf[len-1] != '0') && prec <= len) prec = (unsigned int)len + 1U;
+    } else if (prefix) {
+      pfx[plen++] = '0';
+      if (base == 2U) pfx[plen++] = 'b';
+      else pfx[plen++] = (flags & FLAGS_UPPERCASE) ? 'X' : 'x';
     }
-    if ((base == 16U) && !(flags & FLAGS_UPPERCASE) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'x';
-    else if ((base == 16U) && (flags & FLAGS_UPPERCASE) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'X';
-    else if ((base == 2U) && (len < PRINTF_NTOA_BUFFER_SIZE)) buf[len++] = 'b';
-    if (len < PRINTF_NTOA_BUFFER_SIZE) buf[len++] = '0';
   }
-  if (len < PRINTF_NTOA_BUFFER_SIZE) {
-    if (negative) buf[len++] = '-';
-    else if (flags & FLAGS_PLUS) buf[len++] = '+'; 
-    else if (flags & FLAGS_SPACE) buf[len++] = ' ';
+  if (len < prec) zeros = prec - len;
+  if ((flags & FLAGS_ZEROPAD) && !(flags & (FLAGS_LEFT | FLAGS_PRECISION)) && plen + len < width) zeros = width - plen - len;
+  if (!(flags & FLAGS_LEFT)) {
+    for (i = plen + zeros + len; i < width; i++) (*out)(' ', data, idx++, maxlen);
   }
-  return _out_rev(out, data, idx, maxlen, buf, len, width, flags);
+  for (i = 0U; i < plen; i++) (*out)(pfx[i], data, idx++, maxlen);
+  for (i = 0U; i < zeros; i++) (*out)('0', data, idx++, maxlen);
+  for (i = len; i > 0U; i--) (*out)(buf[i-1], data, idx++, maxlen);
+  if (flags & FLAGS_LEFT) {
+    for (i = plen + zeros + len; i < width; i++) (*out)(' ', data, idx++, maxlen);
+  }
+  return idx;
 }
 
 /* internal itoa for 'long' type */
 static size_t _ntoa_long(out_fct_t out, void *data, size_t idx, size_t maxlen, unsigned long value, bool negative, unsigned long base, unsigned int prec, unsigned int width, unsigned int flags)
 {
   char buf[PRINTF_NTOA_BUFFER_SIZE];
-  size_t len = 0U;
-  if (!value) flags &= ~FLAGS_HASH;
-  if (!(flags & FLAGS_PRECISION) || value) {
+  size_t len = 0U; const bool prefix = value != 0;
+  if (!(flags & FLAGS_PRECISION) || prec || value) {
     do {
       const char digit = (char)(value % base);
       buf[len++] = digit < 10 ? '0' + digit : (flags & FLAGS_UPPERCASE ? 'A' : 'a') + digit - 10;
       value /= base;
     } while (value && (len < PRINTF_NTOA_BUFFER_SIZE));
   }
-  return _ntoa_format(out, data, idx, maxlen, buf, len, negative, (unsigned int)base, prec, width, flags);
+  return _ntoa_format(out, data, idx, maxlen, buf, len, negative, prefix, (unsigned int)base, prec, width, flags);
 }
 
 /* internal itoa for 'long long' type */
 static size_t _ntoa_long_long(out_fct_t out, void *data, size_t idx, size_t maxlen, unsigned long long value, bool negative, unsigned long long base, unsigned int prec, unsigned int width, unsigned int flags)
 {
   char buf[PRINTF_NTOA_BUFFER_SIZE];
-  size_t len = 0U;
-  if (!value) flags &= ~FLAGS_HASH;
-  if (!(flags & FLAGS_PRECISION) || value) {
+  size_t len = 0U; const bool prefix = value != 0;
+  if (!(flags & FLAGS_PRECISION) || prec || value) {
     do {
       const char digit = (char)(value % base);
       buf[len++] = digit < 10 ? '0' + digit : (flags & FLAGS_UPPERCASE ? 'A' : 'a') + digit - 10;
       value /= base;
     } while (value && (len < PRINTF_NTOA_BUFFER_SIZE));
   }
-  return _ntoa_format(out, data, idx, maxlen, buf, len, negative, (unsigned int)base, prec, width, flags);
+  return _ntoa_format(out, data, idx, maxlen, buf, len, negative, prefix, (unsigned int)base, prec, width, flags);
 }
 
 /* powers of 10 for _ftoa's 9 digits of precision */
@@ -1464,7 +1467,8 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
         precision = _atoi(&format);
       } else if (*format == '*') {
         const int prec = (int)va_arg(va, int);
-        precision = prec > 0 ? (unsigned int)prec : 0U;
+        if (prec >= 0) precision = (unsigned int)prec;
+        else flags &= ~FLAGS_PRECISION; /* as if omitted */
         ++format;
       }
     }
@@ -1559,16 +1563,13 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
       } break;
       case 's': {
         const char* p = va_arg(va, char*);
-        unsigned int l = _strnlen_s(p, precision ? precision : (size_t)-1);
-        if (flags & FLAGS_PRECISION) l = (l < precision ? l : precision);
+        const unsigned int l = _strnlen_s(p, (flags & FLAGS_PRECISION) ? precision : (size_t)-1);
         if (!(flags & FLAGS_LEFT)) {
-          while (l++ < width) (*out)(' ', data, idx++, maxlen);
-        }
-        while (*p != 0 && (!(flags & FLAGS_PRECISION) || precision--)) {
-          (*out)(*(p++), data, idx++, maxlen);
+          for (n = l; n < width; n++) (*out)(' ', data, idx++, maxlen);
         }
+        for (n = 0U; n < l; n++) (*out)(p[n], data, idx++, maxlen);
         if (flags & FLAGS_LEFT) {
-          while (l++ < width) (*out)(' ', data, idx++, maxlen);
+          for (n = l; n < width; n++) (*out)(' ', data, idx++, maxlen);
         }
         ++format;
       } break;
-- 
2.43.0


From 2f1806bdf2dee21938a6adb8badcacf1a337ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:39 +0000
Subject: [PATCH 29/97] fix: printf floating conversions: rounding carries
 (10.00e+00), negative zero, '#', digits lost to approximations, padding of
 inf/nan

---
 lib/src/stdio.c | 380 +++++++++++++++++++++---------------------------
 1 file changed, 169 insertions(+), 211 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 80974fa..044f100 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1062,14 +1062,6 @@ int vsnscanf(const char *buf, size_t count, const char *format, va_list va)
  * integer number, base 2 included (dynamically created on stack) */
 #define PRINTF_NTOA_BUFFER_SIZE    64U
 
-/* 'ftoa' conversion buffer size, this must be big enough to hold one converted
- * float number including padded zeros (dynamically created on stack) */
-#define PRINTF_FTOA_BUFFER_SIZE    32U
-
-/* 'atoa' conversion buffer size, this must be big enough to hold one converted
- * hex float number including padded zeros (dynamically created on stack) */
-#define PRINTF_ATOA_BUFFER_SIZE    32U
-
  /* default precision for decimal doubles */
 #define PRINTF_DEFAULT_FLOAT_PRECISION  6U
 
@@ -1091,7 +1083,6 @@ int vsnscanf(const char *buf, size_t count, const char *format, va_list va)
 #define FLAGS_LONG      (1U <<  8U)
 #define FLAGS_LONG_LONG (1U <<  9U)
 #define FLAGS_PRECISION (1U << 10U)
-#define FLAGS_ADAPT_EXP (1U << 11U)
 
 /* output function type */
 typedef void (*out_fct_t)(char c, void *data, size_t idx, size_t maxlen);
@@ -1188,232 +1179,204 @@ static size_t _ntoa_long_long(out_fct_t out, void *data, size_t idx, size_t maxl
   return _ntoa_format(out, data, idx, maxlen, buf, len, negative, prefix, (unsigned int)base, prec, width, flags);
 }
 
-/* powers of 10 for _ftoa's 9 digits of precision */
-static const double pow10[] = { 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000 };
-
-/* forward declaration so that _ftoa can switch to exp notation for values > PRINTF_MAX_FLOAT */
-static size_t _etoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double value, unsigned int prec, unsigned int width, unsigned int flags);
+/* decimal expansion of a finite double: _dgs[i] is the digit of weight 10^(PRINTF_DGS_INT-1-i);
+ * all doubles have exact expansions: up to 309 digits before the point, up to 1074 after it */
+#define PRINTF_DGS_WORDS  155 /* 35 words of 9 digits before the point, 120 after it */
+#define PRINTF_DGS_INT    315
+#define PRINTF_DGS_SIZE   1395
+static uint32_t _dws[PRINTF_DGS_WORDS];
+static char _dgs[PRINTF_DGS_SIZE];
 
-/* internal ftoa for fixed decimal floating point */
-static size_t _ftoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double value, unsigned int prec, unsigned int width, unsigned int flags)
+/* fill _dgs with the digits of non-negative value, return index of the first non-zero one (if any) */
+static int _dtodgs(double value)
 {
-  char buf[PRINTF_FTOA_BUFFER_SIZE];
-  size_t len  = 0U; double diff = 0.0;
-  
-  if (value != value)   /* NAN */
-    return _out_rev(out, data, idx, maxlen, "nan", 3, width, flags);
-  if (value < -DBL_MAX) /* -INF */
-    return _out_rev(out, data, idx, maxlen, "fni-", 4, width, flags);
-  if (value > DBL_MAX)  /* +INF */
-    return _out_rev(out, data, idx, maxlen, (flags & FLAGS_PLUS) ? "fni+" : "fni", (flags & FLAGS_PLUS) ? 4U : 3U, width, flags);
-  /* fall back to etoa for very large values */
-  if ((value > PRINTF_MAX_FLOAT) || (value < -PRINTF_MAX_FLOAT)) {
-    return _etoa(out, data, idx, maxlen, value, prec, width, flags);
-  }
-  bool negative = false;
-  if (value < 0) { negative = true; value = -value; }
-  if (!(flags & FLAGS_PRECISION)) {
-    prec = PRINTF_DEFAULT_FLOAT_PRECISION;
-  }
-  /* limit precision to 9, cause a prec >= 10 can lead to overflow errors */
-  while ((len < PRINTF_FTOA_BUFFER_SIZE) && (prec > 9U)) {
-    buf[len++] = '0';
-    --prec;
-  }
-  
-  int whole = (int)value;
-  double tmp = (value - whole) * pow10[prec];
-  unsigned long frac = (unsigned long)tmp;
-  diff = tmp - frac;
-  if (diff > 0.5) {
-    ++frac;
-    /* handle rollover, e.g. case 0.99 with prec 1 is 1.0 */
-    if (frac >= pow10[prec]) {
-      frac = 0;
-      ++whole;
-    }
-  } else if (diff < 0.5) {
-  } else if ((frac == 0U) || (frac & 1U)) {
-    /* if halfway, round up if odd OR if last digit is 0 */
-    ++frac;
-  }
-  if (prec == 0U) {
-    diff = value - (double)whole;
-    if ((!(diff < 0.5) || (diff > 0.5)) && (whole & 1)) {
-      /* exactly 0.5 and ODD, then round up:  1.5 -> 2, but 2.5 -> 2 */
-      ++whole;
-    }
-  } else {
-    unsigned int count = prec;
-    /* now do fractional part, as an unsigned number */
-    while (len < PRINTF_FTOA_BUFFER_SIZE) {
-      --count;
-      buf[len++] = (char)(48U + (frac % 10U));
-      if (!(frac /= 10U)) break;
+  union { uint64_t U; double F; } conv; conv.F = value;
+  uint64_t mant = conv.U & 0xFFFFFFFFFFFFFULL, cc;
+  int exp2 = (int)(conv.U >> 52U) & 0x7FF, a = 33, z = 35, i, j, sh; /* words a..z-1 may be nonzero */
+  uint32_t c, w;
+  if (exp2 == 0) exp2 = 1; else mant |= 1ULL << 52U;
+  exp2 -= 1075;
+  memset(&_dws[0], 0, sizeof(_dws));
+  _dws[33] = (uint32_t)(mant / 1000000000ULL);
+  _dws[34] = (uint32_t)(mant % 1000000000ULL);
+  while (exp2 > 0) { /* multiply by 2^sh */
+    sh = exp2 > 29 ? 29 : exp2;
+    for (cc = 0ULL, i = 34; i >= a || cc > 0ULL; --i) {
+      cc += (uint64_t)_dws[i] << sh;
+      _dws[i] = (uint32_t)(cc % 1000000000ULL);
+      cc /= 1000000000ULL;
     }
-    /* add extra 0s */
-    while ((len < PRINTF_FTOA_BUFFER_SIZE) && (count-- > 0U)) {
-      buf[len++] = '0';
+    if (i + 1 < a) a = i + 1;
+    exp2 -= sh;
+  }
+  while (exp2 < 0) { /* divide by 2^sh; 10^9 is a multiple of 2^9 */
+    sh = exp2 < -9 ? 9 : -exp2;
+    for (c = 0U, i = a; i < z || c > 0U; ++i) {
+      w = _dws[i];
+      _dws[i] = (w >> sh) + c;
+      c = (w & ((1U << sh) - 1U)) * (1000000000U >> sh);
     }
-    if (len < PRINTF_FTOA_BUFFER_SIZE) {
-      /* add decimal dot */
-      buf[len++] = '.';
+    if (i > z) z = i;
+    exp2 += sh;
+  }
+  for (i = 0; i < PRINTF_DGS_WORDS; ++i) {
+    for (w = _dws[i], j = 8; j >= 0; --j) {
+      _dgs[i * 9 + j] = (char)('0' + (int)(w % 10U));
+      w /= 10U;
     }
   }
+  for (i = 0; i < PRINTF_DGS_INT-1; ++i) if (_dgs[i] != '0') return i;
+  while (i < PRINTF_DGS_SIZE && _dgs[i] == '0') ++i;
+  return i < PRINTF_DGS_SIZE ? i : PRINTF_DGS_INT-1;
+}
 
-  /* do whole part, number is reversed */
-  while (len < PRINTF_FTOA_BUFFER_SIZE) {
-    buf[len++] = (char)(48 + (whole % 10));
-    if (!(whole /= 10)) break;
-  }
-  if (!(flags & FLAGS_LEFT) && (flags & FLAGS_ZEROPAD)) {
-    if (width && (negative || (flags & (FLAGS_PLUS | FLAGS_SPACE)))) --width;
-    while ((len < width) && (len < PRINTF_FTOA_BUFFER_SIZE)) buf[len++] = '0';
+/* round _dgs to the digit at index i, half to even */
+static void _rnddgs(size_t i)
+{
+  size_t j; bool up;
+  if (i >= PRINTF_DGS_SIZE-1) return;
+  up = _dgs[i+1] > '5' || (_dgs[i+1] == '5' && (_dgs[i] & 1));
+  if (!up && _dgs[i+1] == '5') {
+    for (j = i + 2; j < PRINTF_DGS_SIZE; ++j) if (_dgs[j] != '0') up = true;
   }
-  if (len < PRINTF_FTOA_BUFFER_SIZE) {
-    if (negative) buf[len++] = '-';
-    else if (flags & FLAGS_PLUS) buf[len++] = '+';
-    else if (flags & FLAGS_SPACE) buf[len++] = ' ';
+  for (j = i + 1; j < PRINTF_DGS_SIZE; ++j) _dgs[j] = '0';
+  while (up) {
+    if (_dgs[i] == '9') _dgs[i--] = '0';
+    else { ++_dgs[i]; up = false; }
   }
+}
 
-  return _out_rev(out, data, idx, maxlen, buf, len, width, flags);
+/* internal ftoa for NAN and INF */
+static size_t _fspecial(out_fct_t out, void *data, size_t idx, size_t maxlen, double value, unsigned int width, unsigned int flags)
+{
+  char buf[4]; size_t len = 0U; const char *s;
+  if (value != value) s = (flags & FLAGS_UPPERCASE) ? "NAN" : "nan";
+  else s = (flags & FLAGS_UPPERCASE) ? "FNI" : "fni";
+  while (*s) buf[len++] = *s++;
+  if (value < 0.0) buf[len++] = '-';
+  else if (flags & FLAGS_PLUS) buf[len++] = '+';
+  else if (flags & FLAGS_SPACE) buf[len++] = ' ';
+  return _out_rev(out, data, idx, maxlen, buf, len, width, flags & ~FLAGS_ZEROPAD);
 }
 
-/* internal ftoa variant for exponential floating-point type, contributed by Martijn Jasperse <m.jasperse@gmail.com> */
-static size_t _etoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double value, unsigned int prec, unsigned int width, unsigned int flags)
+/* internal ftoa for decimal floating point; style is 'f', 'e' or 'g' */
+static size_t _ftoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double value, char style, unsigned int prec, unsigned int width, unsigned int flags)
 {
   if ((value != value) || (value > DBL_MAX) || (value < -DBL_MAX)) {
-    return _ftoa(out, data, idx, maxlen, value, prec, width, flags);
+    return _fspecial(out, data, idx, maxlen, value, width, flags);
   }
-  const bool negative = value < 0; if (negative) value = -value;
+  union { uint64_t U; double F; } conv; conv.F = value;
+  char sign = 0, ebuf[6]; size_t elen = 0U, len, lead, ints, i;
+  if (conv.U >> 63U) { sign = '-'; value = -value; }
+  else if (flags & FLAGS_PLUS) sign = '+';
+  else if (flags & FLAGS_SPACE) sign = ' ';
   if (!(flags & FLAGS_PRECISION)) prec = PRINTF_DEFAULT_FLOAT_PRECISION;
+  if (style == 'g') { if (prec) --prec; } /* now the number of digits after the first significant one */
 
-  /* determine the decimal exponent
-   * based on the algorithm by David Gay (https://www.ampl.com/netlib/fp/dtoa.c) */
-  union { uint64_t U; double F; } conv; conv.F = value;
-  int exp2 = (int)((conv.U >> 52U) & 0x07FFU) - 1023;  /* effectively log2 */
-  conv.U = (conv.U & ((1ULL << 52U) - 1U)) | (1023ULL << 52U);  /* drop the exponent so conv.F is now in [1,2) */
-  /* now approximate log10 from the log2 integer part and an expansion of ln around 1.5 */
-  int expval = (int)(0.1760912590558 + exp2 * 0.301029995663981 + (conv.F - 1.5) * 0.289529654602168);
-  /* now we want to compute 10^expval but we want to be sure it won't overflow */
-  exp2 = (int)(expval * 3.321928094887362 + 0.5);
-  const double z  = expval * 2.302585092994046 - exp2 * 0.6931471805599453;
-  const double z2 = z * z;
-  conv.U = (uint64_t)(exp2 + 1023) << 52U;
-  /* compute exp(z) using continued fractions, see 
-   * https://en.wikipedia.org/wiki/Exponential_function#Continued_fractions_for_ex */
-  conv.F *= 1 + 2 * z / (2 - z + (z2 / (6 + (z2 / (10 + z2 / 14)))));
-  /* correct for rounding errors */
-  if (value < conv.F) { --expval; conv.F /= 10; }
-
-  /* the exponent format is "%+03d" and largest value is "307", so set aside 4-5 characters */
-  unsigned int minwidth = ((expval < 100) && (expval > -100)) ? 4U : 5U;
-
-  /* in "%g" mode, "prec" is the number of *significant figures* not decimals */
-  if (flags & FLAGS_ADAPT_EXP) {
-    /* do we want to fall-back to "%f" mode? */
-    if ((value >= 1e-4) && (value < 1e6)) {
-      if ((int)prec > expval) prec = (unsigned)((int)prec - expval - 1);
-      else prec = 0;
-      flags |= FLAGS_PRECISION; /* make sure _ftoa respects precision */
-      /* no characters in exponent */
-      minwidth = 0U; expval = 0;
-    } else {
-      /* we use one sigfig for the whole part */
-      if ((prec > 0) && (flags & FLAGS_PRECISION)) --prec;
+  /* fall back to exp notation for very large values */
+  if (style == 'f' && value > PRINTF_MAX_FLOAT) style = 'e';
+
+  lead = (size_t)_dtodgs(value);
+  if (style == 'f') { /* limit precision to 9, the rest is zeros */
+    _rnddgs((size_t)(PRINTF_DGS_INT-1) + (prec > 9U ? 9U : prec));
+    if (lead > 0 && _dgs[lead-1] != '0') --lead; /* rounded up to the next power of ten */
+  } else {
+    _rnddgs(lead + prec);
+    if (lead > 0 && _dgs[lead-1] != '0') --lead;
+    int exp10 = PRINTF_DGS_INT-1 - (int)lead;
+    if (style == 'g') {
+      bool fixed = exp10 >= -4 && exp10 <= (int)prec;
+      /* NB: trailing zeros are never dropped */
+      if (fixed) {
+        style = 'f';
+        if ((int)prec > exp10) prec = (unsigned int)((int)prec - exp10);
+        else prec = 0U;
+      }
+    }
+    if (style != 'f') {
+      const bool negexp = exp10 < 0; if (negexp) exp10 = -exp10;
+      do ebuf[elen++] = (char)('0' + exp10 % 10); while ((exp10 /= 10) > 0);
+      if (elen < 2U) ebuf[elen++] = '0';
+      ebuf[elen++] = negexp ? '-' : '+';
+      ebuf[elen++] = (flags & FLAGS_UPPERCASE) ? 'E' : 'e';
     }
   }
+  if (style == 'f') {
+    if (lead > PRINTF_DGS_INT-1) lead = PRINTF_DGS_INT-1;
+    ints = PRINTF_DGS_INT - lead;
+  } else ints = 1U;
 
-  unsigned int fwidth = width;
-  if (width > minwidth) { /* we didn't fall-back so subtract the characters required for the exponent */
-    fwidth -= minwidth;
-  } else { /* not enough characters, so go back to default sizing */
-    fwidth = 0U;
+  len = (sign ? 1U : 0U) + ints + ((prec || (flags & FLAGS_HASH)) ? 1U : 0U) + prec + elen;
+  if (!(flags & (FLAGS_LEFT | FLAGS_ZEROPAD))) {
+    for (i = len; i < width; ++i) (*out)(' ', data, idx++, maxlen);
   }
-  if ((flags & FLAGS_LEFT) && minwidth) { /* if we're padding on the right, DON'T pad the floating part */
-    fwidth = 0U;
+  if (sign) (*out)(sign, data, idx++, maxlen);
+  if ((flags & FLAGS_ZEROPAD) && !(flags & FLAGS_LEFT)) {
+    for (i = len; i < width; ++i) (*out)('0', data, idx++, maxlen);
   }
-
-  /* rescale the float value */
-  if (expval) value /= conv.F;
-
-  /* output the floating part */
-  const size_t start_idx = idx;
-  idx = _ftoa(out, data, idx, maxlen, negative ? -value : value, prec, fwidth, flags & ~FLAGS_ADAPT_EXP);
-  /* output the exponent part */
-  if (minwidth) {
-    (*out)((flags & FLAGS_UPPERCASE) ? 'E' : 'e', data, idx++, maxlen);
-    idx = _ntoa_long(out, data, idx, maxlen, (expval < 0) ? -expval : expval, expval < 0, 10, 0, minwidth-1, FLAGS_ZEROPAD | FLAGS_PLUS);
-    if (flags & FLAGS_LEFT) { /* right-pad spaces */ 
-      while (idx - start_idx < width) (*out)(' ', data, idx++, maxlen);
-    }
+  while (ints-- > 0U) (*out)(_dgs[lead++], data, idx++, maxlen);
+  if (prec || (flags & FLAGS_HASH)) (*out)('.', data, idx++, maxlen);
+  while (prec-- > 0U) {
+    (*out)(lead < PRINTF_DGS_SIZE ? _dgs[lead] : '0', data, idx++, maxlen);
+    ++lead;
+  }
+  while (elen > 0U) (*out)(ebuf[--elen], data, idx++, maxlen);
+  if (flags & FLAGS_LEFT) {
+    for (i = len; i < width; ++i) (*out)(' ', data, idx++, maxlen);
   }
-
   return idx;
 }
 
-/* internal hexadecimal ftoa variant for exponential floating-point type */
+/* internal hexadecimal ftoa variant */
 static size_t _atoa(out_fct_t out, void *data, size_t idx, size_t maxlen, double value, unsigned int prec, unsigned int width, unsigned int flags)
 {
   if ((value != value) || (value > DBL_MAX) || (value < -DBL_MAX)) {
-    return _ftoa(out, data, idx, maxlen, value, prec, width, flags);
+    return _fspecial(out, data, idx, maxlen, value, width, flags);
   }
-  const bool negative = value < 0.0; if (negative) value = -value;
-  if (!(flags & FLAGS_PRECISION)) prec = PRINTF_DEFAULT_HEXFL_PRECISION;
   union { uint64_t U; double F; } conv; conv.F = value;
   int exp2 = (int)((conv.U >> 52U) & 0x07FFU);
-  uint64_t mantissa = (conv.U & 0xFFFFFFFFFFFFFULL);
-  int mandigits = 13;
-  char buf[PRINTF_ATOA_BUFFER_SIZE];
-  size_t len = 0U; int val, vneg = false;
-  if (exp2 == 0) val = mantissa == 0 ? 0 : -1022; else val = exp2 - 1023;
-  if (val < 0) val = -val, vneg = true;
-  if (len < PRINTF_ATOA_BUFFER_SIZE) do {
-    const char digit = (char)(val % 10);
-    buf[len++] = '0' + digit; val /= 10;
-  } while (val && (len < PRINTF_ATOA_BUFFER_SIZE));
-  if (len < PRINTF_ATOA_BUFFER_SIZE) buf[len++] = vneg ? '-' : '+';
-  if (len < PRINTF_ATOA_BUFFER_SIZE) buf[len++] = flags & FLAGS_UPPERCASE ? 'P' : 'p';
-  while ((len < PRINTF_FTOA_BUFFER_SIZE) && (prec > PRINTF_DEFAULT_HEXFL_PRECISION)) {
-    buf[len++] = '0';
-    --prec;
-  }
-  size_t rlen = prec < PRINTF_DEFAULT_HEXFL_PRECISION ? PRINTF_DEFAULT_HEXFL_PRECISION - prec : 0;
-  double diff = 0.0; /* [0..16) */
-  if (len < PRINTF_ATOA_BUFFER_SIZE) do {
-    int digit = (int)(mantissa % 16);
-    if (rlen > 0) { /* no output, keep tracking diff */
-      diff = diff/16.0 + digit;
-      --rlen;
-    } else { /* output, absorb diff */
-      if (diff > 8.0 || (diff == 8.0 && (digit & 1))) {
-        if (++digit == 16) {
-          digit = 0; diff = diff / 16.0 + 15;
-        } else { /* diff fully absorbed */
-          diff = 0.0;
-        }
-      } else { /* diff fully absorbed */
-        diff = 0.0;
-      }
-      buf[len++] = digit < 10 ? '0' + digit : (flags & FLAGS_UPPERCASE ? 'A' : 'a') + digit - 10;
-    }
-    mantissa /= 16; --mandigits;
-  } while (mandigits && (len < PRINTF_ATOA_BUFFER_SIZE));
-  if (prec > 0 && len < PRINTF_ATOA_BUFFER_SIZE) buf[len++] = '.';
-  if (len < PRINTF_ATOA_BUFFER_SIZE) {
-    int digit = (exp2 == 0) ? 0 : 1;
-    if (diff > 8.0 || (diff == 8.0 && (digit & 1))) ++digit;
-    buf[len++] = '0' + digit;
-  }
-  if (!(flags & FLAGS_UPPERCASE) && (len < PRINTF_ATOA_BUFFER_SIZE)) buf[len++] = 'x';
-  else if (len < PRINTF_ATOA_BUFFER_SIZE) buf[len++] = 'X';
-  if (len < PRINTF_ATOA_BUFFER_SIZE) buf[len++] = '0';
-  if (len < PRINTF_ATOA_BUFFER_SIZE) {
-    if (negative) buf[len++] = '-';
-    else if (flags & FLAGS_PLUS) buf[len++] = '+';
-    else if (flags & FLAGS_SPACE) buf[len++] = ' ';
+  uint64_t mantissa = (conv.U & 0xFFFFFFFFFFFFFULL), rest, half; /* 13 digits after the point */
+  char pfx[4], ebuf[8]; size_t plen = 0U, elen = 0U, len, i;
+  if (conv.U >> 63U) pfx[plen++] = '-';
+  else if (flags & FLAGS_PLUS) pfx[plen++] = '+';
+  else if (flags & FLAGS_SPACE) pfx[plen++] = ' ';
+  pfx[plen++] = '0';
+  pfx[plen++] = (flags & FLAGS_UPPERCASE) ? 'X' : 'x';
+  if (!(flags & FLAGS_PRECISION)) prec = PRINTF_DEFAULT_HEXFL_PRECISION;
+  if (exp2 == 0) exp2 = mantissa == 0ULL ? 0 : -1022;
+  else { exp2 -= 1023; mantissa |= 1ULL << 52U; }
+  if (prec < PRINTF_DEFAULT_HEXFL_PRECISION) { /* round half to even */
+    const unsigned int sh = (PRINTF_DEFAULT_HEXFL_PRECISION - prec) * 4U;
+    half = 1ULL << (sh - 1U);
+    rest = mantissa & ((half << 1U) - 1ULL);
+    mantissa -= rest;
+    if (rest > half || (rest == half && ((mantissa >> sh) & 1ULL) != 0ULL)) mantissa += half << 1U;
+  }
+  const bool negexp = exp2 < 0; if (negexp) exp2 = -exp2;
+  do ebuf[elen++] = (char)('0' + exp2 % 10); while ((exp2 /= 10) > 0);
+  ebuf[elen++] = negexp ? '-' : '+';
+  ebuf[elen++] = (flags & FLAGS_UPPERCASE) ? 'P' : 'p';
+
+  len = plen + 1U + ((prec || (flags & FLAGS_HASH)) ? 1U : 0U) + prec + elen;
+  if (!(flags & (FLAGS_LEFT | FLAGS_ZEROPAD))) {
+    for (i = len; i < width; ++i) (*out)(' ', data, idx++, maxlen);
+  }
+  for (i = 0U; i < plen; ++i) (*out)(pfx[i], data, idx++, maxlen);
+  if ((flags & FLAGS_ZEROPAD) && !(flags & FLAGS_LEFT)) {
+    for (i = len; i < width; ++i) (*out)('0', data, idx++, maxlen);
+  }
+  (*out)((char)('0' + (int)(mantissa >> 52U)), data, idx++, maxlen);
+  if (prec || (flags & FLAGS_HASH)) (*out)('.', data, idx++, maxlen);
+  while (prec-- > 0U) {
+    mantissa = (mantissa & 0xFFFFFFFFFFFFFULL) << 4U;
+    const int digit = (int)(mantissa >> 52U);
+    (*out)((char)(digit < 10 ? '0' + digit : ((flags & FLAGS_UPPERCASE) ? 'A' : 'a') + digit - 10), data, idx++, maxlen);
+  }
+  while (elen > 0U) (*out)(ebuf[--elen], data, idx++, maxlen);
+  if (flags & FLAGS_LEFT) {
+    for (i = len; i < width; ++i) (*out)(' ', data, idx++, maxlen);
   }
-  return _out_rev(out, data, idx, maxlen, buf, len, width, flags);
+  return idx;
 }
 
 /* internal vsnprintf */
@@ -1539,15 +1502,10 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
         idx = _atoa(out, data, idx, maxlen, va_arg(va, double), precision, width, flags);
         ++format;
       } break;
-      case 'f': case 'F': {
-        if (*format == 'F') flags |= FLAGS_UPPERCASE;
-        idx = _ftoa(out, data, idx, maxlen, va_arg(va, double), precision, width, flags);
-        ++format;
-      } break;
-      case 'e': case 'E': case 'g': case 'G': {
-        if (*format == 'g' || *format == 'G') flags |= FLAGS_ADAPT_EXP;
-        if (*format == 'E' || *format == 'G') flags |= FLAGS_UPPERCASE;
-        idx = _etoa(out, data, idx, maxlen, va_arg(va, double), precision, width, flags);
+      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': {
+        const char style = *format;
+        if (style == 'F' || style == 'E' || style == 'G') flags |= FLAGS_UPPERCASE;
+        idx = _ftoa(out, data, idx, maxlen, va_arg(va, double), (char)tolower(style), precision, width, flags);
         ++format;
       } break;
       case 'c': {
-- 
2.43.0


From 2f10294db70fbcc84393c7b53893ac11e716983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:51 +0000
Subject: [PATCH 30/97] fix: printf("%c", 0) to a stream did not write the zero
 byte

---
 lib/src/stdio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 044f100..8b5caa8 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1102,7 +1102,7 @@ static void _out_null(char c, void *data, size_t idx, size_t maxlen)
 static void _out_file(char c, void *data, size_t idx, size_t maxlen)
 {
   FILE *fp = (FILE *)data;
-  if (c) putc(c, fp);
+  putc(c, fp);
 } 
 
 /* output the specified string in reverse, taking care of any zero-padding */
@@ -1553,7 +1553,7 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
     }
   }
 
-  (*out)((char)0, data, idx < maxlen ? idx : maxlen - 1U, maxlen); /* \0 */
+  if (out != &_out_file) (*out)((char)0, data, idx < maxlen ? idx : maxlen - 1U, maxlen); /* \0 */
   return (int)idx; /* # of written chars sans \0 */
 }
 
-- 
2.43.0


From d8c013a097e94aec09f315502f686f9a8bb45b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:53 +0000
Subject: [PATCH 31/97] fix: isfinite returned the opposite of its answer

---
 lib/src/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/math.c b/lib/src/math.c
index 67c73cf..0f28480 100644
--- a/lib/src/math.c
+++ b/lib/src/math.c
@@ -293,7 +293,7 @@ int fpclassify(double x)
 
 int isfinite(double x)
 {
-  return (_dasull(x) & 0x7FF0000000000000ULL) == 0x7FF0000000000000ULL;  
+  return (_dasull(x) & 0x7FF0000000000000ULL) != 0x7FF0000000000000ULL;  
 }
 
 int isinf(double x)
-- 
2.43.0


From 9ec0a769f94ae45c32cdb8b39ba93930ba6d8d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:39 +0000
Subject: [PATCH 32/97] fix: pow of a negative base and a huge odd exponent
 lost the sign of its result

---
 lib/src/math.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/src/math.c b/lib/src/math.c
index 0f28480..79189cf 100644
--- a/lib/src/math.c
+++ b/lib/src/math.c
@@ -883,7 +883,7 @@ static double ieee754_sqrt(double x)
 static double ieee754_pow(double x, double y)
 {
   double z, ax, z_h, z_l, p_h, p_l;
-  double y1, t1, t2, r, s, t, u, v, w;
+  double y1, t1, t2, r, s, sr, t, u, v, w;
   int32_t i, j, k, yisint, n;
   int32_t hx, hy, ix, iy;
   uint32_t lx, ly;
@@ -977,6 +977,10 @@ static double ieee754_pow(double x, double y)
   if (((((uint32_t) hx >> 31) - 1) | yisint) == 0)
     return (x - x) / (x - x);
 
+  sr = one; /* sr (sign of result -ve**odd) = -1 else = 1 */
+  if (((((uint32_t) hx >> 31) - 1) | (yisint - 1)) == 0)
+    sr = -one; /* (-ve)**(odd int) */
+
   /* |y| is huge */
   if (iy > IC(0x41e00000)) { /* if |y| > 2**31 */
     if (iy > IC(0x43f00000)) { /* if |y| > 2**64, must o/uflow */
@@ -1001,18 +1005,18 @@ static double ieee754_pow(double x, double y)
     if (ix < IC(0x3fefffff)) {
       if (hy < 0) {
         feraiseexcept(FE_OVERFLOW);
-        return HUGE_VAL;
+        return ieee754_copysign(HUGE_VAL, sr);
       }
       feraiseexcept(FE_UNDERFLOW);
-      return 0;
+      return ieee754_copysign(0.0, sr);
     }
     if (ix > IC(0x3ff00000)) {
       if (hy > 0) {
         feraiseexcept(FE_OVERFLOW);
-        return HUGE_VAL;
+        return ieee754_copysign(HUGE_VAL, sr);
       }
       feraiseexcept(FE_UNDERFLOW);
-      return 0;
+      return ieee754_copysign(0.0, sr);
     }
     /* now |1-x| is tiny <= 2**-20, suffice to compute 
        log(x) by x-x^2/2+x^3/3-x^4/4 */
@@ -1082,10 +1086,6 @@ static double ieee754_pow(double x, double y)
     t2 = z_l - (((t1 - t) - dp_h[k]) - z_h);
   }
 
-  s = one; /* s (sign of result -ve**odd) = -1 else = 1 */
-  if (((((uint32_t) hx >> 31) - 1) | (yisint - 1)) == 0)
-    s = -one; /* (-ve)**(odd int) */
-
   /* split up y into y1+y2 and compute (y1+y2)*(t1+t2) */
   y1 = y;
   SET_LOW_WORD(y1, 0);
@@ -1096,20 +1096,20 @@ static double ieee754_pow(double x, double y)
   if (j >= IC(0x40900000)) { /* z >= 1024 */
     if (((j - IC(0x40900000)) | i) != 0) { /* if z > 1024 */
       feraiseexcept(FE_OVERFLOW);
-      return ieee754_copysign(HUGE_VAL, s);
+      return ieee754_copysign(HUGE_VAL, sr);
     }
     if (p_l + ovt > z - p_h) {
       feraiseexcept(FE_OVERFLOW);
-      return ieee754_copysign(HUGE_VAL, s);
+      return ieee754_copysign(HUGE_VAL, sr);
     }
   } else if ((j & IC(0x7fffffff)) >= IC(0x4090cc00)) { /* z <= -1075 */
     if (((j - IC(0xc090cc00U)) | i) != 0) { /* z < -1075 */
       feraiseexcept(FE_UNDERFLOW);
-      return ieee754_copysign(0.0, s);
+      return ieee754_copysign(0.0, sr);
     }
     if (p_l <= z - p_h) {
       feraiseexcept(FE_UNDERFLOW);
-      return ieee754_copysign(0.0, s);
+      return ieee754_copysign(0.0, sr);
     }
   }
   /* compute 2**(p_h+p_l) */
@@ -1143,7 +1143,7 @@ static double ieee754_pow(double x, double y)
   } else {
     SET_HIGH_WORD(z, j);
   }
-  return s * z;
+  return sr * z;
 }
 
 /* ieee754_log(x)
-- 
2.43.0


From 62f569b4816e7c864960561471c43a2c0e8dda1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 33/97] fix: strtol and its relatives did not report overflow,
 invalid bases and inputs without digits

---
 lib/src/stdlib.c | 87 ++++++++++++++++++++++++++++--------------------
 1 file changed, 51 insertions(+), 36 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index decaa86..6530cee 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -4,6 +4,7 @@
 #include <stdint.h>
 #include <stddef.h>
 #include <stdbool.h>
+#include <limits.h>
 #include <errno.h>
 #include <ctype.h>
 #include <math.h>
@@ -325,74 +326,88 @@ static int digitval(int c)
   return -1;
 }
 
-static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n)
+static uintmax_t strntonum(const char *nptr, char **endptr, int base, size_t n, bool *pminus, bool *povfl)
 {
-  int minus = 0; uintmax_t v = 0; int d;
-  while (n && isspace((unsigned char)*nptr)) {  nptr++;  n--; }
-  if (n) {
-    char c = *nptr;
-    if (c == '-' || c == '+') {
-      minus = (c == '-');
-      nptr++;
-      n--;
-    }
+  const char *s = nptr; uintmax_t v = 0; int d; bool nodigs = true;
+  *pminus = *povfl = false;
+  if (endptr) *endptr = (char *)nptr;
+  if (base < 0 || base == 1 || base > 36) {
+    errno = EINVAL;
+    return 0;
   }
-  if (base == 0) {
-    if (n >= 2 && nptr[0] == '0' &&
-        (nptr[1] == 'x' || nptr[1] == 'X')) {
-      n -= 2; nptr += 2; base = 16;
-    } else if (n >= 1 && nptr[0] == '0') {
-      n--; nptr++; base = 8;
-    } else {
-      base = 10;
-    }
-  } else if (base == 16) {
-    if (n >= 2 && nptr[0] == '0' &&
-        (nptr[1] == 'x' || nptr[1] == 'X')) {
-      n -= 2; nptr += 2;
-    }
+  while (n && isspace((unsigned char)*s)) { s++; n--; }
+  if (n && (*s == '-' || *s == '+')) {
+    *pminus = (*s == '-');
+    s++; n--;
   }
-  while (n && (d = digitval(*nptr)) >= 0 && d < base) {
-    v = v * base + d;
-    n--; nptr++;
+  if ((base == 0 || base == 16) && n >= 3 && s[0] == '0' &&
+      (s[1] == 'x' || s[1] == 'X') && (d = digitval(s[2])) >= 0 && d < 16) {
+    n -= 2; s += 2; base = 16;
+  } else if (base == 0) {
+    base = (n >= 1 && s[0] == '0') ? 8 : 10;
   }
-  if (endptr) *endptr = (char *)nptr;
-  return minus ? -v : v;
+  while (n && (d = digitval(*s)) >= 0 && d < base) {
+    if (v > (UINTMAX_MAX - (uintmax_t)d) / (uintmax_t)base) *povfl = true;
+    else v = v * (uintmax_t)base + (uintmax_t)d;
+    n--; s++; nodigs = false;
+  }
+  if (endptr && !nodigs) *endptr = (char *)s;
+  return v;
+}
+
+static intmax_t strntosigned(const char *nptr, char **endptr, int base, size_t n, intmax_t max)
+{
+  bool minus, ovfl; uintmax_t v = strntonum(nptr, endptr, base, n, &minus, &ovfl);
+  if (ovfl || v > (uintmax_t)max + (minus ? 1ULL : 0ULL)) {
+    errno = ERANGE;
+    return minus ? -max-1LL : max;
+  }
+  return (intmax_t)(minus ? 0ULL-v : v);
+}
+
+static uintmax_t strntounsigned(const char *nptr, char **endptr, int base, size_t n, uintmax_t max)
+{
+  bool minus, ovfl; uintmax_t v = strntonum(nptr, endptr, base, n, &minus, &ovfl);
+  if (ovfl || v > max) {
+    errno = ERANGE;
+    return max;
+  }
+  return minus ? 0ULL-v : v;
 }
 
 intmax_t strntoimax(const char *nptr, char **endptr, int base, size_t n)
 {
-  return (intmax_t)strntoumax(nptr, endptr, base, n);
+  return strntosigned(nptr, endptr, base, n, INTMAX_MAX);
 }
 
 intmax_t strtoimax(const char *nptr, char **endptr, int base)
 {
-  return (intmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return strntosigned(nptr, endptr, base, ~(size_t)0, INTMAX_MAX);
 }
 
 long strtol(const char *nptr, char **endptr, int base)
 {
-  return (long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (long)strntosigned(nptr, endptr, base, ~(size_t)0, (intmax_t)LONG_MAX);
 }
 
 long long strtoll(const char *nptr, char **endptr, int base)
 {
-  return (long long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (long long)strntosigned(nptr, endptr, base, ~(size_t)0, LLONG_MAX);
 }
 
 unsigned long strtoul(const char *nptr, char **endptr, int base)
 {
-  return (unsigned long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (unsigned long)strntounsigned(nptr, endptr, base, ~(size_t)0, (uintmax_t)ULONG_MAX);
 }
 
 unsigned long long strtoull(const char *nptr, char **endptr, int base)
 {
-  return (unsigned long long) strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (unsigned long long)strntounsigned(nptr, endptr, base, ~(size_t)0, ULLONG_MAX);
 }
 
 uintmax_t strtoumax(const char *nptr, char **endptr, int base)
 {
-  return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return strntounsigned(nptr, endptr, base, ~(size_t)0, UINTMAX_MAX);
 }
 
 static unsigned short rand48_seed[3] = { 0x330e, 1, 0 }; /* as set by srand(1) */
-- 
2.43.0


From 6765d7e7cce6dd1ad77052f32adfadec134f28e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:15 +0000
Subject: [PATCH 34/97] fix: strtod took leading zeros as significant, rejected
 1e, and mishandled extreme exponents and subnormals

---
 lib/src/stdlib.c | 226 ++++++++++++++++++++++-------------------------
 1 file changed, 104 insertions(+), 122 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 6530cee..1325b1c 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -137,154 +137,132 @@ long long atoll(const char *s)
 #define MAX_BASE10_DIGS 18 /* more than this won't affect the result */
 static double powers_of_10[] = { 10., 100., 1.0e4, 1.0e8, 1.0e16, 1.0e32, 1.0e64, 1.0e128, 1.0e256 };
 
+/* internal scanner for exponents; returns the position after a complete one */
+static const char *strtod_exp(const char *pc, int *pexp)
+{
+  bool negexp = false; int exp = 0;
+  const char *pe = pc + 1; /* skip E or P */
+  if (*pe == '-') { ++pe; negexp = true; }
+  else if (*pe == '+') ++pe;
+  if (!isdigit(*pe)) return pc;
+  while (isdigit(*pe)) {
+    if (exp < 100000000) exp = exp * 10 + (*pe - '0');
+    ++pe;
+  }
+  *pexp += negexp ? -exp : exp;
+  return pe;
+}
+
 static double strtod_dec(const char *s, const char *pc, bool neg, char **endp)
 {
-  bool negexp = false;
+  bool negexp = false, dot = false, digs = false;
   double fraction, exponent, *pd;
-  int c, exp = 0, fracexp = 0;
-  int mantsz = 0, dotpos = -1, expsz = -1;
-  const char *pexp;
-
-  while (true) {
-    if (!isdigit(c = *pc)) {
-      if ((c != '.') || (dotpos >= 0)) break;
-      dotpos = mantsz;
-    }
-    ++pc; ++mantsz;
-  }
-  pexp = pc; pc -= mantsz;
-  if (dotpos < 0) dotpos = mantsz; 
-  else --mantsz;
-  if (mantsz > MAX_BASE10_DIGS) mantsz = MAX_BASE10_DIGS;
-  fracexp = dotpos - mantsz;
-  if (mantsz == 0) {
-    if (endp != NULL) *endp = (char*)s;
-    return 0.0;
-  } else {
-    long long frac = 0LL;
-    while (mantsz-- > 0) {
-      if ((c = *pc++) == '.') c = *pc++;
-      frac = 10LL * frac + (c - '0');
-    }
-    fraction = (double)frac;
-  }
-  pc = pexp;
-  if ((*pc == 'E') || (*pc == 'e')) {
-    expsz = 0;
-    if (*++pc == '-') { ++pc; negexp = true; }
-    else if (*pc == '+') ++pc;
-    while (isdigit(*pc)) {
-      exp = exp * 10 + (*pc++ - '0');
-      ++expsz;
-    }
+  int c, exp = 0, mantsz = 0;
+  long long frac = 0LL;
+
+  for (;; ++pc) {
+    c = *pc;
+    if (isdigit(c)) {
+      digs = true;
+      if (mantsz < MAX_BASE10_DIGS) {
+        frac = 10LL * frac + (c - '0');
+        if (frac != 0LL) ++mantsz; /* leading zeros do not count */
+        if (dot) --exp;
+      } else if (!dot) ++exp;
+    } else if (c == '.' && !dot) {
+      dot = true;
+    } else break;
   }
-  if (expsz == 0) {
+  if (!digs) {
     if (endp != NULL) *endp = (char*)s;
     return 0.0;
   }
-  if (negexp) exp = fracexp - exp;
-  else exp = fracexp + exp;
+  if ((*pc == 'E') || (*pc == 'e')) pc = strtod_exp(pc, &exp);
+  if (endp != NULL) *endp = (char *)pc;
+  if (frac == 0LL) return neg ? -0.0 : 0.0;
+
+  fraction = (double)frac;
   if (exp < 0) { negexp = true; exp = -exp; } 
-  else negexp = false;
   if (exp > MAX_BASE10_EXPONENT) {
-    if (endp != NULL) *endp = (char *)pc;
-    errno = ERANGE;
-    return neg ? -HUGE_VAL : HUGE_VAL;
-  }
-  exponent = 1.0;
-  for (pd = &powers_of_10[0]; exp != 0; exp >>= 1, ++pd) {
-    if (exp & 1) exponent *= *pd;
+    fraction = negexp ? 0.0 : HUGE_VAL;
+  } else {
+    if (exp >= 256) { /* in two steps: results can be subnormal */
+      if (negexp) fraction /= powers_of_10[8];
+      else fraction *= powers_of_10[8];
+      exp -= 256;
+    }
+    exponent = 1.0;
+    for (pd = &powers_of_10[0]; exp != 0; exp >>= 1, ++pd) {
+      if (exp & 1) exponent *= *pd;
+    }
+    if (negexp) fraction /= exponent;
+    else fraction *= exponent;
   }
-  if (negexp) fraction /= exponent;
-  else fraction *= exponent;
-
-  if (endp != NULL) *endp = (char *)pc;
+  if (fraction == 0.0 || fraction == HUGE_VAL) errno = ERANGE;
   return neg ? -fraction : fraction;
 }
 
-#define MAX_BASE2_EXPONENT 1024 /* largest possible base 2 exponent */
-#define MAX_BASE16_DIGS 15 /* more than this won't affect the result */
+#define MAX_BASE16_DIGS 15 /* the rest only matters if it is not zero */
+#define MIN_BASE2_EXPONENT (-1074) /* exponent of the smallest subnormal */
 
 static double strtod_hex(const char *s, const char *pc, bool neg, char **endp)
 {
-  bool negexp = false;
-  double fraction; // , exponent, *pd;
-  int c, exp = 0, fracexp = 0, val;
-  int mantsz = 0, dotpos = -1, expsz = -1;
-  const char *pexp;
+  bool dot = false, digs = false;
+  double fraction;
+  int c, exp = 0, val, mantsz = 0;
+  long long frac = 0LL; bool rest = false;
+  const char *start = pc;
 
-  while (true) {
-    if (!isxdigit(c = *pc)) {
-      if ((c != '.') || (dotpos >= 0)) break;
-      dotpos = mantsz;
-    }
-    ++pc; ++mantsz;
-  }
-  pexp = pc; pc -= mantsz;
-  if (dotpos < 0) dotpos = mantsz;
-  else --mantsz;
-  if (mantsz > MAX_BASE16_DIGS) mantsz = MAX_BASE16_DIGS;
-  fracexp = (dotpos - mantsz)*4;
-  if (mantsz == 0) {
-    if (endp != NULL) *endp = (char*)s;
-    return 0.0;
-  } else {
-    long long frac = 0LL;
-    while (mantsz-- > 0) {
-      if ((c = *pc++) == '.') c = *pc++;
+  for (;; ++pc) {
+    c = *pc;
+    if (isxdigit(c)) {
+      digs = true;
       if ('0' <= c && c <= '9') val = c - '0';
       else if ('a' <= c && c <= 'f') val = c - 'a' + 10;
       else val = c - 'A' + 10;
-      frac = 16LL * frac + val;
-    }
-    fraction = (double)frac;
-  }
-  pc = pexp;
-  if ((*pc == 'P') || (*pc == 'p')) {
-    expsz = 0;
-    if (*++pc == '-') { ++pc; negexp = true; }
-    else if (*pc == '+') ++pc;
-    while (isdigit(*pc)) {
-      exp = exp * 10 + (*pc++ - '0');
-      ++expsz;
-    }
-  }
-  if (expsz == 0) {
-    if (endp != NULL) *endp = (char*)s;
-    return 0.0;
+      if (mantsz < MAX_BASE16_DIGS) {
+        frac = 16LL * frac + val;
+        if (frac != 0LL) ++mantsz; /* leading zeros do not count */
+        if (dot) exp -= 4;
+      } else {
+        if (val != 0) rest = true;
+        if (!dot) exp += 4;
+      }
+    } else if (c == '.' && !dot) {
+      dot = true;
+    } else break;
   }
-  if (negexp) exp = fracexp - exp;
-  else exp = fracexp + exp;
-  if (exp < 0) { negexp = true; exp = -exp; }
-  else negexp = false;
-  if (exp > MAX_BASE2_EXPONENT) {
-    if (endp != NULL) *endp = (char *)pc;
-    errno = ERANGE;
-    return neg ? -HUGE_VAL : HUGE_VAL;
+  if (!digs) { /* just the 0 */
+    if (endp != NULL) *endp = (char*)start - 1;
+    return neg ? -0.0 : 0.0;
   }
-  fraction = ldexp(fraction, negexp ? -exp : exp);
-
+  if ((*pc == 'P') || (*pc == 'p')) pc = strtod_exp(pc, &exp);
   if (endp != NULL) *endp = (char *)pc;
+  if (frac == 0LL) return neg ? -0.0 : 0.0;
+
+  if (rest) frac |= 1LL;
+  if (exp < MIN_BASE2_EXPONENT) {
+    int shift = MIN_BASE2_EXPONENT - exp;
+    if (shift > 61) { 
+      frac = 0LL;
+    } else if ((frac >> shift) < (1LL << 53)) { /* subnormal: round here, and only once */
+      long long half = 1LL << (shift - 1), tail = frac & ((half << 1) - 1LL);
+      frac >>= shift;
+      if (tail > half || (tail == half && (frac & 1LL) != 0LL)) ++frac;
+      exp = MIN_BASE2_EXPONENT;
+    }
+  }
+  fraction = ldexp((double)frac, exp);
+  if (fraction == 0.0 || fraction == HUGE_VAL) errno = ERANGE;
   return neg ? -fraction : fraction;
 }
 
 /* internal scanner for special values */
 static int strtod_s(const char *pc, const char *s)
 {
-  int n = 0; bool full = true;
-  while (*s) {
-    int c = *pc;
-    if (c == 0) break;
-    if (*s == '*') {
-      full = false;
-      if (c == ')') { ++s; full = true; }
-      else ++pc;
-    } else if (tolower(*s) == tolower(c)) {
-      ++s; ++pc;
-    } else break;
-    ++n;
-  }
-  return full ? n : -1;
+  int n = 0;
+  while (s[n] && tolower(s[n]) == tolower(pc[n])) ++n;
+  return n;
 }
 
 double strtod(const char *s, char **endp)
@@ -298,16 +276,20 @@ double strtod(const char *s, char **endp)
     return strtod_hex(s, pc + 2, neg, endp);
   } else if (pc[0] == 'I' || pc[0] == 'i') {
     int n = strtod_s(pc, "INFINITY");
-    if (n == 3 || n == 8) {
-      if (endp) *endp = (char *)pc + n;
+    if (n >= 3) {
+      if (endp) *endp = (char *)pc + (n == 8 ? 8 : 3);
       return neg ? -HUGE_VAL : HUGE_VAL;
     } else {
       if (endp) *endp = (char *)s;
       return 0.0;
     }
   } else if (pc[0] == 'N' || pc[0] == 'n') {
-    int n = strtod_s(pc, "NAN(*)");
+    int n = strtod_s(pc, "NAN(");
     if (n >= 3) {
+      if (n == 4) { /* optional suffix must be complete */
+        while (isalnum(pc[n]) || pc[n] == '_') ++n;
+        n = (pc[n] == ')') ? n + 1 : 3;
+      }
       if (endp) *endp = (char *)pc + n;
       return -HUGE_VAL + HUGE_VAL; /* fixme */
     } else {
-- 
2.43.0


From 2a875ef169b099541b8046c18f70ea18045ab446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:45 +0000
Subject: [PATCH 35/97] fix: mbtowc, mbstowcs and wcstombs ignored their limits
 and terminators

---
 lib/src/stdlib.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 1325b1c..d1beb2a 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -764,16 +764,16 @@ int mbtowc(wchar_t *p, const char *s, size_t n)
   const unsigned char *ip = (const unsigned char *)s;
   int c0, c, nc; long l;
   struct utf8_table *t;
-  { c0 = *ip; l = c0; nc = 0;
-    if (!s) return 0;
+  { if (!s) return 0; /* not state-dependent */
     if (!n) goto ilseq;
+    c0 = *ip; l = c0; nc = 0;
     for (t = utf8_table; t->cmask; t++) {
       nc++;
       if ((c0 & t->cmask) == t->cval) {
         l &= t->lmask;
         if (l < t->lval) goto ilseq;
-        *p = (wchar_t)l;
-        return nc;
+        if (p) *p = (wchar_t)l;
+        return l == 0L ? 0 : nc;
       }
       if (n <= nc) goto ilseq;
       ip++;
@@ -818,16 +818,17 @@ size_t mbstowcs(wchar_t *pwcs, const char *s, size_t n)
 {
   wchar_t *op = pwcs;
   const unsigned char *ip = (const unsigned char *)s;
-  while (*ip && n > 0) {
+  while (n > 0) {
     if (*ip & 0x80) {
-      int size = mbtowc(op, (const char *)ip, n);
+      int size = mbtowc(op, (const char *)ip, 6);
       if (size == -1) { /* ignore character and move on */
-        ip++; n--;
+        ip++;
       } else {
-        op++; ip += size; n -= size;
+        op++; ip += size; n--;
       }
     } else {
-      *op++ = *ip++; n--;
+      if ((*op = *ip) == 0) break;
+      op++; ip++; n--;
     }
   }
   return op - pwcs;
@@ -837,16 +838,14 @@ size_t wcstombs(char *s, const wchar_t *pwcs, size_t maxlen)
 {
   const wchar_t *ip = pwcs; 
   unsigned char *op = (unsigned char *)s;
-  while (*ip && maxlen > 0) {
+  while (maxlen > 0) {
     if (*ip > 0x7f) {
       int size = wctomb_chk(op, *ip, maxlen);
-      if (size == -1) { /* ignore character and move on */
-        maxlen--;
-      } else {
-        op += size; maxlen -= size;
-      }
+      if (size == -1) break; /* does not fit */
+      op += size; maxlen -= size;
     } else {
-      *op++ = (unsigned char)*ip;
+      if ((*op = (unsigned char)*ip) == 0) break;
+      op++; maxlen--;
     }
     ip++;
   }
-- 
2.43.0


From e737348fd1ff882d82cb5e197cf3d89ece950a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:45 +0000
Subject: [PATCH 36/97] fix: getenv matched variables of other names

---
 lib/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index d1beb2a..3c0762c 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -482,7 +482,7 @@ char *getenv(const char *name)
     initialize_environ();
     char **env;
     for (env = _environ; *env; ++env) {
-      if (strncmp(name, *env, len) && (*env)[len] == '=')
+      if (strncmp(name, *env, len) == 0 && (*env)[len] == '=')
         return *env + len + 1;
     }
   }
-- 
2.43.0


From ab0cb1d3d93f87193625d76e558421eed1dd1452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:52 +0000
Subject: [PATCH 37/97] fix: scanf split long numbers, read zero and byte 0xff
 wrongly, and depended on a stale errno

---
 lib/src/stdio.c | 109 +++++++++++++++++++-----------------------------
 1 file changed, 44 insertions(+), 65 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 8b5caa8..b193b7e 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -563,7 +563,7 @@ static unsigned int _atoi(const char** str)
 
  /* 'atod' conversion buffer size, this must be big enough to hold one converted
   * floating-point number including prefixes (dynamically created on stack) */
-#define SCANF_ATOD_BUFFER_SIZE    32U
+#define SCANF_ATOD_BUFFER_SIZE   512U
 
 /* internal size definitions */
 #define SIZE_HH  (-2)
@@ -578,7 +578,7 @@ typedef int(*in_fct_t)(void *data, size_t idx, size_t maxlen, bool get);
 /* internal buffer input */
 static int _in_buffer(void *data, size_t idx, size_t maxlen, bool get)
 {
-  if (idx < maxlen) return ((char*)data)[idx];
+  if (idx < maxlen) return ((unsigned char*)data)[idx];
   return EOF;
 }
 
@@ -616,22 +616,22 @@ static void store_float(void *dst, int size, double f)
 static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, int base, int width, size_t *pidx)
 {
   char buf[SCANF_ATON_BUFFER_SIZE];
-  size_t len = 0, dc = 0; int c; bool gotsign = false;
+  size_t len = 0, dc = 0, zc; int c; bool ok;
   unsigned long long res; char *end;
   size_t maxidx = (width == 0) ? SIZE_MAX : *pidx + width;
   
+  errno = 0;
   { /* scan chars up to maxidx */
     if (*pidx >= maxidx) goto stop;
     c = (*in)(data, *pidx, maxlen, false);
     if (c == '-' || c == '+') {
-      gotsign = (c == '-');
       buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
     }
     if (base == 0) { /* determine radix by prefix */
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
       if (c == '0') {
-        (*in)(data, (*pidx)++, maxlen, true);
+        buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
         ++dc;
         if (*pidx >= maxidx) goto stop;
         c = (*in)(data, *pidx, maxlen, false);
@@ -646,7 +646,7 @@ static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, in
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
       if (c == '0') {
-        (*in)(data, (*pidx)++, maxlen, true);
+        buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
         ++dc;
         if (*pidx >= maxidx) goto stop;
         c = (*in)(data, *pidx, maxlen, false);
@@ -656,40 +656,20 @@ static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, in
         }
       }
     }
-    switch (base) {
-    case 8:
-      while (len < SCANF_ATON_BUFFER_SIZE - 1) {
-        if (*pidx >= maxidx) goto stop;
-        c = (*in)(data, *pidx, maxlen, false);
-        if (c != EOF && _is_oct_digit(c)) {
-          buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-          ++dc;
-        }
-        else break;
-      }
-      break;
-    case 10:
-      while (len < SCANF_ATON_BUFFER_SIZE - 1) {
-        if (*pidx >= maxidx) goto stop;
-        c = (*in)(data, *pidx, maxlen, false);
-        if (c != EOF && _is_dec_digit(c)) {
-          buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-          ++dc;
-        }
-        else break;
-      }
-      break;
-    case 16:
-      while (len < SCANF_ATON_BUFFER_SIZE - 1) {
-        if (*pidx >= maxidx) goto stop;
-        c = (*in)(data, *pidx, maxlen, false);
-        if (c != EOF && _is_hex_digit(c)) {
-          buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-          ++dc;
-        }
-        else break;
-      }
-      break;
+    zc = (len > 0 && buf[len-1] == '0') ? len - 1 : len; /* position of the first digit */
+    while (true) {
+      if (*pidx >= maxidx) goto stop;
+      c = (*in)(data, *pidx, maxlen, false);
+      if (c == EOF) break;
+      if (base == 8) ok = _is_oct_digit(c);
+      else if (base == 10) ok = _is_dec_digit(c);
+      else ok = _is_hex_digit(c);
+      if (!ok) break;
+      (*in)(data, (*pidx)++, maxlen, true);
+      ++dc;
+      if (len == zc + 1 && buf[zc] == '0') len = zc; /* drop leading zeros */
+      /* a number that does not fit into the buffer is out of range anyway */
+      if (len < SCANF_ATON_BUFFER_SIZE - 1) buf[len++] = (char)c;
     }
   stop:;
   }
@@ -697,41 +677,40 @@ static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, in
     errno = EILSEQ;
     return 0;
   }
-  buf[len] = 0; errno = 0;
-  if (gotsign) res = (unsigned long long)strtoll(buf, &end, base);
-  else res = strtoull(buf, &end, base);
+  buf[len] = 0;
+  res = strtoull(buf, &end, base);
   if (*end != 0) errno = EILSEQ;
   return res;
 }
 
 /* internal scanner for special values */
-static int _atos(in_fct_t in, void *data, const size_t maxlen, const char *s, size_t *pidx)
+static int _atos(in_fct_t in, void *data, const size_t maxlen, const char *s, size_t maxidx, size_t *pidx)
 {
-  int n = 0; bool full = true;
-  while (*s) {
+  int n = 0;
+  while (*s && *pidx < maxidx) {
     int c = (*in)(data, *pidx, maxlen, false);
     if (c == EOF) break;
     if (*s == '*') {
-      full = false;
-      if (c == ')') { ++s; full = true; }
-      else (*in)(data, (*pidx)++, maxlen, true);
+      if (c == ')') ++s;
+      else { if (!isalnum(c) && c != '_') break; (*in)(data, (*pidx)++, maxlen, true); }
     } else if (tolower(*s) == tolower(c)) {
       ++s;
       (*in)(data, (*pidx)++, maxlen, true);
     } else break;
     ++n;
   }
-  return full ? n : -1;
+  return (n == 3 || *s == 0) ? n : -1;
 }
 
 /* internal atod for decimal floating point */
 static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, size_t *pidx)
 {
-  char buf[SCANF_ATON_BUFFER_SIZE];
+  char buf[SCANF_ATOD_BUFFER_SIZE];
   size_t len = 0, dc = 0; int c; bool hex = false;
   double res; char *end; bool neg = false;
   size_t maxidx = (width == 0) ? SIZE_MAX : *pidx + width;
 
+  errno = 0;
   { /* scan chars up to maxidx */
     if (*pidx >= maxidx) goto stop;
     c = (*in)(data, *pidx, maxlen, false);
@@ -743,15 +722,15 @@ static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, siz
     if (*pidx >= maxidx) goto stop;
     c = (*in)(data, *pidx, maxlen, false);
     if (c == 'i' || c == 'I') {
-      int n = _atos(in, data, maxlen, "INFINITY", pidx);
-      if (n == 3 || n == 8) return neg ? -HUGE_VAL : HUGE_VAL;
+      int n = _atos(in, data, maxlen, "INFINITY", maxidx, pidx);
+      if (n >= 3) return neg ? -HUGE_VAL : HUGE_VAL;
       errno = EILSEQ; return 0;
     } else if (c == 'n' || c == 'N') {
-      int n = _atos(in, data, maxlen, "NAN(*)", pidx);
+      int n = _atos(in, data, maxlen, "NAN(*)", maxidx, pidx);
       if (n >= 3) return -HUGE_VAL + HUGE_VAL; /* fixme */
       errno = EILSEQ; return 0;
     }
-    while (len < SCANF_ATON_BUFFER_SIZE - 1) {
+    while (len < SCANF_ATOD_BUFFER_SIZE - 1) {
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
       if (c == EOF) break;
@@ -765,34 +744,34 @@ static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, siz
         ++dc;
       } else break;
     }
-    if (len < SCANF_ATON_BUFFER_SIZE - 1) {
+    if (len < SCANF_ATOD_BUFFER_SIZE - 1) {
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
       if (c == '.') {
         buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-        while (len < SCANF_ATON_BUFFER_SIZE - 1) {
+        while (len < SCANF_ATOD_BUFFER_SIZE - 1) {
           if (*pidx >= maxidx) goto stop;
           c = (*in)(data, *pidx, maxlen, false);
-          if (c != EOF && hex ? _is_hex_digit(c) : _is_dec_digit(c)) {
+          if (c != EOF && (hex ? _is_hex_digit(c) : _is_dec_digit(c))) {
             buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
             ++dc;
           } else break;
         }
       }
     }
-    if (len < SCANF_ATON_BUFFER_SIZE - 1) {
+    if (len < SCANF_ATOD_BUFFER_SIZE - 1) {
       if (*pidx >= maxidx) goto stop;
       c = (*in)(data, *pidx, maxlen, false);
       if (hex ? (c == 'p' || c == 'P')  : (c == 'e' || c == 'E')) {
         buf[len++] = (*in)(data, (*pidx)++, maxlen, true);
-        if (len < SCANF_ATON_BUFFER_SIZE - 1) {
+        if (len < SCANF_ATOD_BUFFER_SIZE - 1) {
           if (*pidx >= maxidx) goto stop;
           c = (*in)(data, *pidx, maxlen, false);
           if (c == '-' || c == '+') {
             (*in)(data, (*pidx)++, maxlen, true);
             buf[len++] = c;
           }
-          while (len < SCANF_ATON_BUFFER_SIZE - 1) {
+          while (len < SCANF_ATOD_BUFFER_SIZE - 1) {
             if (*pidx >= maxidx) goto stop;
             c = (*in)(data, *pidx, maxlen, false);
             if (c != EOF && _is_dec_digit(c))
@@ -808,7 +787,7 @@ static double _atod(in_fct_t in, void *data, const size_t maxlen, int width, siz
     errno = EILSEQ;
     return 0;
   }
-  buf[len] = 0; errno = 0;
+  buf[len] = 0;
   res = strtod(buf, &end);
   if (*end != 0) errno = EILSEQ;
   return res;
@@ -962,7 +941,7 @@ int _vsnscanf(in_fct_t in, void *data, size_t maxlen, const char *format, va_lis
           }
         }
         if (!i || (t == 'c' && i != width)) 
-          return matchc ? matchc : EOF;
+          return (matchc || c != EOF) ? matchc : EOF;
         if (t != 'c') {
           if (s) s[i] = 0;
         }
@@ -977,7 +956,7 @@ int _vsnscanf(in_fct_t in, void *data, size_t maxlen, const char *format, va_lis
         }
         i = idx; 
         x = _aton(in, data, maxlen, base, width, &idx);
-        if (idx == i || errno) return matchc; // matchc ? matchc : EOF;
+        if (idx == i || errno == EILSEQ) return matchc; // matchc ? matchc : EOF;
         if (t == 'p' && dest != NULL) *(void **)dest = (void *)(uintptr_t)x;
         else store_int(dest, size, x);
         break;
@@ -987,7 +966,7 @@ int _vsnscanf(in_fct_t in, void *data, size_t maxlen, const char *format, va_lis
       case 'g': case 'G':
         i = idx; 
         y = _atod(in, data, maxlen, width, &idx);
-        if (idx == i || errno) return matchc; // matchc ? matchc : EOF;
+        if (idx == i || errno == EILSEQ) return matchc; // matchc ? matchc : EOF;
         else store_float(dest, size, y);
         break;
     }
-- 
2.43.0


From 027d1f3a6cb70d6ba87f20f862d5153864d630c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:13 +0000
Subject: [PATCH 38/97] fix: fputc returned the unconverted character

---
 lib/src/stdio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index b193b7e..cf22aac 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -225,6 +225,7 @@ int _flushbuf(int c, FILE *fp)
 {
   unsigned char c1;
   if (wrtchk(fp) != 0) return EOF;
+  c = (unsigned char)c; /* as written */
   do {
     /* check for linebuffered with write perm, but no EOF */
     if ((fp->flags & (_IOLBF|_IOWRT|_IOEOF)) == (_IOLBF|_IOWRT)) {
-- 
2.43.0


From 747c13e36af0bd710fb420784699096c0ab2d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:42 +0000
Subject: [PATCH 39/97] fix: ungetc corrupted memory or failed, fseek returned
 pushed back characters and lost its place when it failed

---
 lib/include/stdio.h |   1 +
 lib/src/stdio.c     | 124 ++++++++++++++++++++------------------------
 2 files changed, 56 insertions(+), 69 deletions(-)

diff --git a/lib/include/stdio.h b/lib/include/stdio.h
index dca7459..27b5a03 100644
--- a/lib/include/stdio.h
+++ b/lib/include/stdio.h
@@ -31,6 +31,7 @@ typedef struct _iobuf {
 #define _IOLBF   0100
 #define _IORW    0200
 #define _IOMYBUF 0400
+#define _IOUNGET 01000
 
 extern FILE _iob[FOPEN_MAX];
 #define stdin  (&_iob[0])
diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index cf22aac..9a31c9a 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -157,16 +157,17 @@ int _fillbuf(FILE *fp)
       if ((fpi->flags & (_IOREAD|_IOLBF)) == _IOLBF) 
         fflush(fpi);
     }
-  fp->ptr = fp->base;
-  readc = (fp->flags & _IONBF) ? 1 : fp->end - fp->base;
-  fp->cnt = read(fp->fd, (char *)fp->base, readc);
+  fp->flags &= ~_IOUNGET;
+  fp->ptr = fp->base + 1; /* leave room for ungetc */
+  readc = (fp->flags & _IONBF) ? 1 : fp->end - fp->ptr;
+  fp->cnt = read(fp->fd, (char *)fp->ptr, readc);
   if (--fp->cnt >= 0) return (*fp->ptr++);
   else if (fp->cnt != -1) fp->flags |= _IOERR;
   else { /* EOF */
     fp->flags |= _IOEOF;
     if (fp->flags & _IORW) fp->flags &= ~_IOREAD;
   }
-  fp->cnt = 0;
+  fp->cnt = 0; fp->ptr = fp->base;
   return EOF;
 }
 
@@ -361,35 +362,42 @@ char *fgets(char *s, int size, FILE *fp)
 
 int ungetc(int c, FILE *fp)
 {
-  if (c == EOF) return -1;
-  if ((fp->flags & _IOREAD) == 0 || fp->ptr <= fp->base) {
-    if (fp->ptr == fp->base && fp->cnt == 0) ++fp->ptr;
-    else return -1;
+  if (c == EOF || !(fp->flags & (_IOREAD|_IORW)) || (fp->flags & _IOWRT)) return EOF;
+  if (fp->base == NULL) addbuf(fp);
+  if (fp->ptr <= fp->base) {
+    if (fp->cnt > 0) return EOF;
+    ++fp->ptr; /* nothing is buffered */
   }
-  *--fp->ptr = c; ++fp->cnt;
-  return c;
+  if (*--fp->ptr != (unsigned char)c) { 
+    *fp->ptr = (unsigned char)c; 
+    fp->flags |= _IOUNGET; /* buffer differs from the file now */
+  }
+  ++fp->cnt;
+  fp->flags = (fp->flags & ~_IOEOF) | _IOREAD;
+  return (unsigned char)c;
 }
 
-int fseek(FILE *fp, long offset, int origin)
+/* fseek/fsetpos helper; leaves fp as it was on failure */
+static int seekto(FILE *fp, off_t offset, int origin)
 {
-  ssize_t c; long p;
-  fp->flags &= ~_IOEOF;
+  off_t p = -1;
   if (fp->flags & _IOREAD) {
-    if (origin < 2 && fp->base != NULL && !(fp->flags & _IONBF)) {
-      c = fp->cnt; p = offset;
-      if (origin == 0) p += (long)c - (long)lseek(fp->fd, 0, SEEK_CUR);
-      else offset -= (long)c;
-      if (!(fp->flags & _IORW) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
+    if (origin != SEEK_END && fp->base != NULL && !(fp->flags & (_IONBF|_IORW|_IOUNGET)) && fp->cnt > 0) {
+      p = offset; /* relative to ptr */
+      if (origin == SEEK_SET) p += (off_t)fp->cnt - lseek(fp->fd, 0, SEEK_CUR); 
+      if (p <= (off_t)fp->cnt && p >= (off_t)(fp->base + 1 - fp->ptr)) {
         fp->ptr += (int)p; fp->cnt -= (int)p;
+        fp->flags &= ~_IOEOF;
         return 0;
       }
     }
-    if (fp->flags & _IORW) {
-      fp->ptr = fp->base;
-      fp->flags &= ~_IOREAD;
+    if (origin == SEEK_CUR) offset -= (off_t)fp->cnt; /* read ahead */
+    p = lseek(fp->fd, offset, origin);
+    if (p != -1) {
+      fp->cnt = 0; fp->ptr = fp->base;
+      fp->flags &= ~_IOUNGET;
+      if (fp->flags & _IORW) fp->flags &= ~_IOREAD;
     }
-    p = (long)lseek(fp->fd, offset, origin);
-    fp->cnt = 0;
   } else if (fp->flags & (_IOWRT|_IORW)) {
     fflush(fp);
     fp->cnt = 0;
@@ -397,14 +405,17 @@ int fseek(FILE *fp, long offset, int origin)
       fp->flags &= ~_IOWRT;
       fp->ptr = fp->base;
     }
-    p = (long)lseek(fp->fd, offset, origin);
+    p = lseek(fp->fd, offset, origin);
   }
-  return (p == -1) ? -1 : 0;
+  if (p == -1) return -1;
+  fp->flags &= ~_IOEOF;
+  return 0;
 }
 
-long ftell(FILE *fp)
+/* ftell/fgetpos helper */
+static off_t tell(FILE *fp)
 {
-  long offset; ssize_t adjust;
+  off_t offset; ssize_t adjust;
   if (fp->cnt < 0) fp->cnt = 0;
   if (fp->flags & _IOREAD) {
     adjust = - fp->cnt;
@@ -413,34 +424,35 @@ long ftell(FILE *fp)
     if (fp->flags & _IOWRT && fp->base != NULL && (fp->flags & _IONBF) == 0)
       adjust = fp->ptr - fp->base;
   } else return -1;
-  offset = (long)lseek(fp->fd, 0, SEEK_CUR);
-  if (offset >= 0) offset += (long)adjust;
+  offset = lseek(fp->fd, 0, SEEK_CUR);
+  if (offset >= 0) offset += (off_t)adjust;
   return offset;
 }
 
+int fseek(FILE *fp, long offset, int origin)
+{
+  return seekto(fp, (off_t)offset, origin);
+}
+
+long ftell(FILE *fp)
+{
+  return (long)tell(fp);
+}
+
 void rewind(FILE *fp)
 {
   fflush(fp);
   lseek(fp->fd, 0, SEEK_SET);
   fp->cnt = 0; fp->ptr = fp->base;
-  fp->flags &= ~(_IOERR|_IOEOF);
+  fp->flags &= ~(_IOERR|_IOEOF|_IOUNGET);
   if (fp->flags & _IORW) fp->flags &= ~(_IOREAD|_IOWRT);
 }
 
 int fgetpos(FILE *fp, fpos_t *ptr)
 {
   static_assert(sizeof(fpos_t) == sizeof(off_t));
-  off_t offset; ssize_t adjust;
-  if (fp->cnt < 0) fp->cnt = 0;
-  if (fp->flags & _IOREAD) {
-    adjust = - fp->cnt;
-  } else if (fp->flags & (_IOWRT|_IORW)) {
-    adjust = 0;
-    if (fp->flags & _IOWRT && fp->base != NULL && (fp->flags & _IONBF) == 0)
-      adjust = fp->ptr - fp->base;
-  } else return -1;
-  offset = lseek(fp->fd, 0, SEEK_CUR);
-  if (offset >= 0) offset += adjust;
+  off_t offset = tell(fp);
+  if (offset < 0) return -1;
   *ptr = offset;
   return 0;
 }
@@ -448,33 +460,7 @@ int fgetpos(FILE *fp, fpos_t *ptr)
 int fsetpos(FILE *fp, const fpos_t *ptr)
 {
   static_assert(sizeof(fpos_t) == sizeof(off_t));
-  ssize_t c; off_t offset = *ptr, p;
-  fp->flags &= ~_IOEOF;
-  if (fp->flags & _IOREAD) {
-    if (fp->base != NULL && !(fp->flags & _IONBF)) {
-      c = fp->cnt; p = offset;
-      p += (off_t)c - lseek(fp->fd, 0, SEEK_CUR);
-      if (!(fp->flags & _IORW) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
-        fp->ptr += (int)p; fp->cnt -= (int)p;
-        return 0;
-      }
-    }
-    if (fp->flags & _IORW) {
-      fp->ptr = fp->base;
-      fp->flags &= ~_IOREAD;
-    }
-    p = lseek(fp->fd, offset, SEEK_SET);
-    fp->cnt = 0;
-  } else if (fp->flags & (_IOWRT|_IORW)) {
-    fflush(fp);
-    fp->cnt = 0;
-    if (fp->flags & _IORW) {
-      fp->flags &= ~_IOWRT;
-      fp->ptr = fp->base;
-    }
-    p = lseek(fp->fd, offset, SEEK_SET);
-  }
-  return (p == -1) ? -1 : 0;
+  return seekto(fp, *ptr, SEEK_SET);
 }
 
 int setvbuf(FILE *fp, char *buf, int mode, size_t size)
@@ -493,7 +479,7 @@ int setvbuf(FILE *fp, char *buf, int mode, size_t size)
     case _IOFBF:
       fp->flags |= mode;
       size = (size == 0) ? BUFSIZ : size;
-      if (buf != NULL && size > SBFSIZ) {
+      if (buf != NULL && size > SBFSIZ + 1) {
         fp->base = (unsigned char *)buf;
         fp->end = fp->base + size - SBFSIZ;
       } else if (size > SBFSIZ && (fp->base = malloc(size + SBFSIZ)) != NULL) {
-- 
2.43.0


From 34795e2549d1fcffbb59bc7c902af03fec793295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:42 +0000
Subject: [PATCH 40/97] fix: reading after fflush returned stale buffer
 contents, fflush(NULL) did nothing

---
 lib/src/stdio.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 9a31c9a..171bb1e 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -318,6 +318,12 @@ int puts(const char *s)
 
 int fflush(FILE *fp)
 {
+  if (fp == NULL) { /* all output streams */
+    int res = 0;
+    for (fp = &_iob[0]; fp < &_iob[FOPEN_MAX]; ++fp)
+      if ((fp->flags & _IOWRT) && fflush(fp) == EOF) res = EOF;
+    return res;
+  }
   if (!(fp->flags & _IOWRT)) {
     fp->cnt = 0;
     return 0;
@@ -326,6 +332,10 @@ int fflush(FILE *fp)
          (fp->base != NULL) && (fp->ptr > fp->base)) {
     writebuf(fp);
   }
+  if (fp->flags & _IORW) { /* input may follow */
+    fp->flags &= ~_IOWRT;
+    fp->cnt = 0;
+  }
   return ferror(fp) ? EOF : 0;
 }
 
-- 
2.43.0


From 5c7cddd8f3e3c4b58ac3fc1d96c329107599e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:42 +0000
Subject: [PATCH 41/97] fix: fputs did not report that it could not write

---
 lib/src/stdio.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 171bb1e..4898682 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -286,7 +286,7 @@ int fputs(const char *s, FILE *fp)
 {
   ssize_t ndone = 0, n;
   unsigned char *cptr; char *p;
-  if (wrtchk(fp) != 0) return 0;
+  if (wrtchk(fp) != 0) return EOF;
   if ((fp->flags & _IONBF) == 0) {
     for (;; s += n) {
       while ((n = fp->end - (cptr = fp->ptr)) <= 0) { /* full buf */
@@ -304,7 +304,10 @@ int fputs(const char *s, FILE *fp)
   } else {
     /* write out to an unbuffered file */
     size_t cnt = strlen(s);
-    write(fp->fd, s, cnt);
+    if (write(fp->fd, s, cnt) != (ssize_t)cnt) {
+      fp->flags |= _IOERR;
+      return EOF;
+    }
     return (int)cnt;
   }
   return 0; /* unreacheable */
-- 
2.43.0


From c0b0c365ea2f6745ad25418a80aa0ec5cbc40c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:42 +0000
Subject: [PATCH 42/97] fix: ftell was wrong while output to an append stream
 was buffered

---
 lib/include/stdio.h | 1 +
 lib/src/stdio.c     | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/lib/include/stdio.h b/lib/include/stdio.h
index 27b5a03..d69cdb2 100644
--- a/lib/include/stdio.h
+++ b/lib/include/stdio.h
@@ -32,6 +32,7 @@ typedef struct _iobuf {
 #define _IORW    0200
 #define _IOMYBUF 0400
 #define _IOUNGET 01000
+#define _IOAPP   02000
 
 extern FILE _iob[FOPEN_MAX];
 #define stdin  (&_iob[0])
diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 4898682..7b2ab0c 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -72,6 +72,7 @@ FILE *freopen(const char *filename, const char *mode, FILE *fp)
   fp->fd = fd; fp->cnt = 0;
   fp->base = fp->ptr = fp->end = NULL;
   fp->flags = ((oflags & O_RDWR) == O_RDWR) ? _IORW : (oflags & O_RDONLY) ? _IOREAD : _IOWRT;
+  if (oflags & O_APPEND) fp->flags |= _IOAPP;
   if ((oflags & O_APPEND) && (oflags & O_RDWR) != O_RDWR && lseek(fd, 0L, SEEK_END) < 0) {
     fclose(fp); fp = NULL;
   }
@@ -215,6 +216,9 @@ static int wrtchk(FILE *fp)
     /* first attempt to bufferize output */
     addbuf(fp);
   }
+  if (fp->ptr == fp->base && (fp->flags & _IOAPP)) {
+    lseek(fp->fd, 0, SEEK_END); /* that's where it goes */
+  }
   if (fp->ptr == fp->base && !(fp->flags & (_IONBF|_IOLBF)))  {
     fp->cnt = fp->end - fp->base; /* first write since seek--set cnt */
   }
-- 
2.43.0


From bb2988ee768eb5bc22a91cfc43d96a45ba703308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 43/97] fix: output written by early atexit functions, or after
 many registrations, was lost

Streams were closed by an ordinary atexit function registered at the first
use of stdio: functions registered before it ran with all streams closed,
and with no slot left the streams were never flushed. Close them after all
functions, in a slot of their own.
---
 lib/include/sys.crt.h | 1 +
 lib/src/crt.args.c    | 6 ++++++
 lib/src/crt.argv.c    | 6 ++++++
 lib/src/crt.void.c    | 6 ++++++
 lib/src/stdio.c       | 3 ++-
 5 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/include/sys.crt.h b/lib/include/sys.crt.h
index d8b123b..f726f9f 100644
--- a/lib/include/sys.crt.h
+++ b/lib/include/sys.crt.h
@@ -7,5 +7,6 @@
 typedef void (*onterm_func_t)(void);
 extern onterm_func_t onterm_funcs[ONTERM_MAX];
 extern size_t onterm_count;
+extern onterm_func_t onterm_last;
 extern void terminate(int status);
 
diff --git a/lib/src/crt.args.c b/lib/src/crt.args.c
index 1214cda..f513f9e 100644
--- a/lib/src/crt.args.c
+++ b/lib/src/crt.args.c
@@ -45,6 +45,7 @@ void initialize(void)
 
 onterm_func_t onterm_funcs[ONTERM_MAX];
 size_t onterm_count = 0;
+onterm_func_t onterm_last = NULL; /* called after all of the above */
 
 void terminate(int status)
 {
@@ -52,5 +53,10 @@ void terminate(int status)
     onterm_func_t fn = onterm_funcs[--onterm_count];
     (*fn)();
   }
+  if (onterm_last != NULL) {
+    onterm_func_t fn = onterm_last;
+    onterm_last = NULL;
+    (*fn)();
+  }
   proc_exit((exitcode_t)status);
 }
diff --git a/lib/src/crt.argv.c b/lib/src/crt.argv.c
index cf6c37a..664ca6a 100644
--- a/lib/src/crt.argv.c
+++ b/lib/src/crt.argv.c
@@ -40,6 +40,7 @@ void initialize(void)
 
 onterm_func_t onterm_funcs[ONTERM_MAX];
 size_t onterm_count = 0;
+onterm_func_t onterm_last = NULL; /* called after all of the above */
 
 void terminate(int status)
 {
@@ -47,5 +48,10 @@ void terminate(int status)
     onterm_func_t fn = onterm_funcs[--onterm_count];
     (*fn)();
   }
+  if (onterm_last != NULL) {
+    onterm_func_t fn = onterm_last;
+    onterm_last = NULL;
+    (*fn)();
+  }
   proc_exit((exitcode_t)status);
 }
diff --git a/lib/src/crt.void.c b/lib/src/crt.void.c
index cc28913..58ec91a 100644
--- a/lib/src/crt.void.c
+++ b/lib/src/crt.void.c
@@ -11,6 +11,7 @@ void initialize(void)
 
 onterm_func_t onterm_funcs[ONTERM_MAX];
 size_t onterm_count = 0;
+onterm_func_t onterm_last = NULL; /* called after all of the above */
 
 void terminate(int status)
 {
@@ -18,5 +19,10 @@ void terminate(int status)
     onterm_func_t fn = onterm_funcs[--onterm_count];
     (*fn)();
   }
+  if (onterm_last != NULL) {
+    onterm_func_t fn = onterm_last;
+    onterm_last = NULL;
+    (*fn)();
+  }
   proc_exit((exitcode_t)status);
 }
diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 7b2ab0c..228853a 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -9,6 +9,7 @@
 #include <unistd.h>
 #include <float.h>
 #include <stdio.h>
+#include <sys/crt.h>
 #include <sys/intrs.h>
 
 /* stream i/o after K&R TCPL */
@@ -46,7 +47,7 @@ static void initialize(void)
     /* make stdin and stdout line-buffered if associated with a tty */
     if (isatty(STDIN_FILENO)) stdin->flags |= _IOLBF; 
     if (isatty(STDOUT_FILENO)) stdout->flags |= _IOLBF; 
-    atexit(&closeall);
+    onterm_last = &closeall; /* after functions registered with atexit */
     initialized = true;
   }
 }
-- 
2.43.0


From 31a6603cf3a209fc91476f6f15902d6202fc21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 44/97] fix: strftime %p, %w, %x, %X, %y and %Y and the name of
 September were wrong

---
 lib/src/time.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 29ebb80..c7dde24 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -52,7 +52,7 @@ static const char *mon_name[12] = {
 
 static const char *mon_full_name[] = { 
   "January", "February", "March", "April", "May", "June", 
-  "July", "August", "Sepember", "October", "November", "December" 
+  "July", "August", "September", "October", "November", "December" 
 };
 
 /* hidden state for non-reentrant functions */
@@ -356,7 +356,7 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
       const char *addstr = NULL;
       int addlen = -1;
       char addval[80];
-      int week;
+      int week, year;
       switch (*++fmt) {
         case 'a':
           addlen = 3; /* abbrevation = first three characters */
@@ -381,7 +381,7 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           }
           break;
         case 'c':
-          strftime(addval, 80, "%a %b %d %x %Y", tp);
+          strftime(addval, 80, "%a %b %d %X %Y", tp);
           break;
         case 'd':
           addval[0] = '0' + (tp->tm_mday / 10);
@@ -418,7 +418,7 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[2] = '\0';
           break;
         case 'p':
-          if (tp->tm_hour > 0 && tp->tm_hour < 13) addstr = "AM";
+          if (tp->tm_hour < 12) addstr = "AM";
           else addstr = "PM";
           break;
         case 'S':
@@ -434,27 +434,23 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[2] = '\0';
           break;
         case 'w':
-          addval[0] = '0' + (tp->tm_wday / 10);
-          addval[1] = '0' + (tp->tm_wday % 10);
-          addval[2] = '\0';
+          addval[0] = '0' + tp->tm_wday;
+          addval[1] = '\0';
           break;
-        case 'X':
+        case 'x':
           strftime(addval, 80, "%d.%m.%Y", tp);
           break;
-        case 'x':
+        case 'X':
           strftime(addval, 80, "%H:%M:%S", tp);
           break;
         case 'y':
-          addval[0] = '0' + ((tp->tm_year % 100) / 10);
-          addval[1] = '0' + ((tp->tm_year % 100) % 10);
+          year = (tp->tm_year % 100 + 100) % 100;
+          addval[0] = '0' + (year / 10);
+          addval[1] = '0' + (year % 10);
           addval[2] = '\0';
           break;
         case 'Y':
-          addval[0] = '0' + ((tp->tm_year + 1900) / 1000);
-          addval[1] = '0' + (((tp->tm_year + 1900) % 1000) / 100);
-          addval[2] = '0' + (((tp->tm_year + 1900) % 100) / 10);
-          addval[3] = '0' + ((tp->tm_year + 1900) % 10);
-          addval[4] = '\0';
+          snprintf(addval, 80, "%.4lld", tp->tm_year + 1900LL);
           break;
         case 'Z':
           addstr = tzname[tp->tm_isdst > 0];
-- 
2.43.0


From f50b5c7c10adb38a86a9f9a3c6b054037b013821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 45/97] fix: strftime did not count ordinary characters against
 its limit and result

---
 lib/src/time.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index c7dde24..e98acec 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -351,7 +351,7 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
   char *ptr = s; size_t count = 0;
 
   tzset();
-  do {
+  for (; *fmt != '\0'; ++fmt) {
     if (*fmt == '%') {
       const char *addstr = NULL;
       int addlen = -1;
@@ -458,6 +458,9 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
         case '%':
           addstr = "%";
           break;
+        case '\0': /* incomplete */
+          addstr = "%"; --fmt;
+          break;
         default:
           addval[0] = '%';
           addval[1] = *fmt;
@@ -465,20 +468,19 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           break;
       }
       if (addstr == NULL) addstr = addval;
-      if (*addstr != '\0') {
-        size_t len = (addlen < 0) ? strlen(addstr) : addlen;
-        if (count + len > smax) len = smax - count;
-        strncpy(ptr, addstr, len);
-        ptr += len;
-        count += len;
-      }
-      ++fmt;
+      size_t len = (addlen < 0) ? strlen(addstr) : addlen;
+      if (len >= smax - count) return 0; /* no room for this and '\0' */
+      memcpy(ptr, addstr, len);
+      ptr += len;
+      count += len;
     } else {
-      if (count <= smax) *ptr++ = *fmt;
-      ++fmt;
+      if (smax - count <= 1) return 0;
+      *ptr++ = *fmt;
+      ++count;
     }
-  } while (fmt[-1] != '\0');
+  }
 
-  if (count > smax) count = 0;
+  if (smax == 0) return 0;
+  *ptr = '\0';
   return count;
 }
-- 
2.43.0


From 617f670a519549c5839d95ed72de62c08cb153dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 46/97] fix: mktime neither normalized its argument nor handled
 dates past 2038 or 2100

---
 lib/src/time.c | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index e98acec..1896a4b 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -14,9 +14,7 @@
 #define DAYS_PER_100Y (365*100 + 24)
 #define DAYS_PER_4Y   (365*4   + 1)
 #define DAYS_PER_WEEK 7
-/* year range is from 1901 to 2038, so no century can occur which is not a leap year
- * #define is_leap(y)  ((y) % 4 == 0 && ((y) % 100 != 0 || (y) % 400 == 0)) */
-#define is_leap(y)  ((y) % 4 == 0)
+#define is_leap(y)  ((y) % 4 == 0 && ((y) % 100 != 0 || (y) % 400 == 0))
 
 static int days_in_month[] = {
   31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 29
@@ -259,26 +257,26 @@ void tzset(void)
 
 time_t mktime(struct tm *tm)
 {
-  long tyears, tdays, leaps, utc_hrs;
-  int leap_year;
+  long long years = tm->tm_year + 1900LL, months = tm->tm_mon, days, y;
+  struct tm norm; time_t t;
 
   tzset();
-  leap_year = is_leap(tm->tm_year + 1900);
-  tyears = tm->tm_year - 70;
-  leaps = (tyears + 2) / 4;
-  if (tyears < 0) {
-    leaps = (tyears - 2) / 4;
-    if (leap_year && tm->tm_mon > 1) ++leaps;
-  } else {
-    leaps = (tyears + 2) / 4; /* no of next two lines until year 2100. */
-    if (leap_year && (tm->tm_mon == 0 || tm->tm_mon == 1)) --leaps;
-  }
-  tdays = (tm->tm_mon > 0) ? mon_days[tm->tm_mon - 1] : 0;
-  tdays += tm->tm_mday - 1; /* days of month passed. */
-  tdays += (tyears * 365) + leaps;
-  utc_hrs = tm->tm_hour;
-
-  return (tdays * 86400L) + (utc_hrs * 3600L) + ((long)tm->tm_min * 60L) + (long)tm->tm_sec + timezone;
+  years += months / 12; months %= 12;
+  if (months < 0) { months += 12; --years; }
+  /* days from 0000-01-01 to January 1st of this year (floor division) */
+  y = years - 1;
+  days = 365 * years + (y >= 0 ? y / 4 - y / 100 + y / 400 + 1
+    : (y - 3) / 4 - (y - 99) / 100 + (y - 399) / 400 + 1);
+  days -= 719528; /* ditto, to 1970-01-01 */
+  if (months > 0) days += mon_days[(int)months - 1];
+  if (months > 1 && is_leap(years)) ++days;
+  days += tm->tm_mday - 1LL;
+  t = ((days * 24 + tm->tm_hour) * 60 + tm->tm_min) * 60 + tm->tm_sec + timezone;
+
+  /* bring all fields into their ranges */
+  if (localtime_r(&t, &norm) == NULL) return -1;
+  *tm = norm;
+  return t;
 }
 
 char *asctime_r(const struct tm *ptm, char *buf)
-- 
2.43.0


From 394abfa8de49e74a31274e12bf36f66b1c6a3204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 47/97] fix: stat functions left old bits in st_mode

---
 lib/src/stat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stat.c b/lib/src/stat.c
index 798e120..c73aff8 100644
--- a/lib/src/stat.c
+++ b/lib/src/stat.c
@@ -30,6 +30,7 @@ static void to_public_stat(const filestat_t *in, struct stat *out)
   timestamp_to_timespec(in->atim, &out->st_atime, &out->st_atime_ns);
   timestamp_to_timespec(in->mtim, &out->st_mtime, &out->st_mtime_ns);
   timestamp_to_timespec(in->ctim, &out->st_ctime, &out->st_ctime_ns);
+  out->st_mode = 0;
   switch (in->filetype) {
     case FILETYPE_BLOCK_DEVICE:
       out->st_mode |= S_IFBLK;
-- 
2.43.0


From 25f2152b4eb362273c24ccb7ae7d5438274b1f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 48/97] fix: memcpy from a null pointer when adding an empty
 string to a buffer

---
 l.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/l.c b/l.c
index 3c81122..2c0ffb3 100644
--- a/l.c
+++ b/l.c
@@ -894,7 +894,7 @@ void cbput(const char *s, size_t n, cbuf_t* pb)
 {
   size_t l = buflen(pb);
   bufresize(pb, l+n);
-  memcpy(l+(char*)pb->buf, s, n);
+  if (n > 0) memcpy(l+(char*)pb->buf, s, n);
 }
 
 void cbputs(const char *s, cbuf_t* pb)
-- 
2.43.0


From b5e33161beabe56fa934ef7a69d7ce830bed6fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 49/97] fix: use after free while parsing simd<T, N> types

---
 p.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/p.c b/p.c
index d318724..298927f 100644
--- a/p.c
+++ b/p.c
@@ -3392,19 +3392,20 @@ static void parse_enum_body(pws_t *pw, node_t *pn)
 /* parse simd body <T, N> */
 static void parse_simd_body(pws_t *pw, node_t *pn)
 {
-  node_t *ptn; int startpos; 
+  node_t *ptn; int startpos; ts_t ts;
   ndset(pn, NT_TYPE, pw->id, peekpos(pw));
   pn->ts = TS_V128;
   expect(pw, TT_LT, "<");
   ptn = ndnewbk(pn); startpos = peekpos(pw);
   parse_base_type(pw, ptn);
-  if (ptn->ts < TS_BOOL || ptn->ts > TS_DOUBLE)
+  ts = ptn->ts; /* ptn is invalid once pn grows */
+  if (ts < TS_BOOL || ts > TS_DOUBLE)
     reprintf(pw, startpos, "unexpected base type in simd<T, N> type specifier");
   expect(pw, TT_COMMA, ","); startpos = peekpos(pw);
   if (ahead(pw, "2") || ahead(pw, "4") || ahead(pw, "8") || ahead(pw, "16")) {
     node_t *pvn = ndnewbk(pn); long n = atol(pw->tokstr); dropt(pw);
     ndset(pvn, NT_LITERAL, pw->id, startpos); pvn->ts = TS_INT; pvn->val.i = n; 
-    switch (ptn->ts) {
+    switch (ts) {
       case TS_BOOL:                  n = 128; break; /* all sizes work */
       case TS_CHAR:  case TS_UCHAR:  n *=  8; break;
       case TS_SHORT: case TS_USHORT: n *= 16; break;
-- 
2.43.0


From 50e7b782aa597727cadd8713e3ae153612f113d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 50/97] fix: linking without main() went on with a null module
 name

---
 w.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/w.c b/w.c
index dbea8e2..4aef8fd 100644
--- a/w.c
+++ b/w.c
@@ -4213,7 +4213,7 @@ void link_wat_modules(wat_module_buf_t *pwb, wat_module_t* pm)
       eprintf("duplicate module: %s", symname(pmi->name));
     else *(sym_t*)bufnewbk(&curmodnames) = pmi->name;
   }
-  if (!mainmod) logef("error: main() function not found\n"); /* fixme: should be eprintf */
+  if (!mainmod) eprintf("main() function not found");
   else logef("# main() found in '%s' module\n", symname(mainmod));
 
   /* add missing library modules */
-- 
2.43.0


From b65381b391437015e09b502ad6af535879fb2369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 51/97] fix: left shift of a negative offset in the address
 peephole

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index f65d9be..5fb5000 100644
--- a/c.c
+++ b/c.c
@@ -4207,7 +4207,7 @@ static void fundef_peephole(node_t *pcn, int optlvl)
         } else if (IN_I32_LOAD <= pthisi->in && pthisi->in <= IN_I64_LOAD32_U) {
           if (pprevi->in == IN_I32_ADD && ppprei->in == IN_I32_CONST) {
             unsigned long long n = pthisi->arg.u & 0xFFFFFFFFU;
-            long long off = (ppprei->arg.i << 32) >> 32; /* may be negative */
+            long long off = (long long)((unsigned long long)ppprei->arg.i << 32) >> 32; /* may be negative */
             if (off >= 0 && (n + (unsigned long long)off) < 0xFFFFFFFFU) { 
               pthisi->arg.u += (unsigned long long)off;
               icbrem(picb, i-2);
-- 
2.43.0


From 1fe5816bb15c867cbad42a3a6999e6313e922def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 52/97] fix: assertion failure on a local variable of type void

---
 c.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 5fb5000..7e31f56 100644
--- a/c.c
+++ b/c.c
@@ -2241,8 +2241,7 @@ static void fundef_wasmify(node_t *pdn)
         ndrem(pbn, i); 
       } break;
       default: {
-        assert(false);
-        ++i;
+        neprintf(pdni, "local variables of type %s are not supported", ts_name(ptni->ts));
       } break;
     }
   }
-- 
2.43.0


From c7010de0e186af5057d778db79f72420c6665f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 53/97] fix: assertion failure on a function body after a
 non-function declarator

---
 p.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p.c b/p.c
index 298927f..25017f8 100644
--- a/p.c
+++ b/p.c
@@ -3896,7 +3896,9 @@ static void parse_top_decl(pws_t *pw, node_t *pn)
       reprintf(pw, pw->pos, "top-level auto/register declarations are not supported"); 
     if (peekt(pw) == TT_LBRC) {
       /* must be single function declaration */
-      if (ndlen(pn) == 1 && ndref(pn, 0)->nt == NT_VARDECL) { 
+      if (ndlen(pn) == 1 && ndref(pn, 0)->nt == NT_VARDECL &&
+          ndlen(ndref(pn, 0)) > 0 && ndref(ndref(pn, 0), 0)->nt == NT_TYPE &&
+          ndref(ndref(pn, 0), 0)->ts == TS_FUNCTION) {
         node_t nd = mknd(), *pbn;
         ndswap(ndref(pn, 0), &nd);
         nd.nt = NT_FUNDEF;
-- 
2.43.0


From 34365ceceeed7ec26400e4a40900ccdb960a5fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 54/97] fix: assertion failure instead of the diagnostic for an
 invalid initializer

---
 c.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/c.c b/c.c
index 7e31f56..b8921d5 100644
--- a/c.c
+++ b/c.c
@@ -1285,7 +1285,6 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
       }
     }
   } else {
-    assert(false);
     neprintf(pdn, "valid initializer expected");
   }
   return pd;
-- 
2.43.0


From 1e83a0c2875413412232a1c274374594e96c2e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 55/97] fix: assertion failure on a dereference of a void
 pointer

---
 c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c.c b/c.c
index b8921d5..8b9c3bc 100644
--- a/c.c
+++ b/c.c
@@ -3193,6 +3193,7 @@ static node_t *compile_ataddr(node_t *prn, node_t *pan)
   node_t *patn = acode_type(pan), *petn = NULL;
   if (patn->ts == TS_PTR) petn = ndref(patn, 0);
   else neprintf(prn, "cannot dereference non-pointer expression");  
+  if (petn->ts == TS_VOID) neprintf(prn, "cannot dereference void pointer");  
   if (ts_bulk(petn->ts)) {
     /* {bulk_t* | x} => {bulk_t | x} */
     lift_arg0(patn);
-- 
2.43.0


From 8199a9ae99c423512c9c385e79eba3a5a460ae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 56/97] fix: assertion failure when a scalar function result is
 assigned to a struct or array

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 8b9c3bc..09830f7 100644
--- a/c.c
+++ b/c.c
@@ -3382,7 +3382,7 @@ static node_t *compile_call(node_t *prn, node_t *pfn, buf_t *pab, node_t *pdn)
     *(node_t **)bufins(pab, 0) = pdn;
     ndsettype(ndnewbk(pcn), TS_VOID);
   } else { 
-    assert(!pdn);
+    if (pdn) n2eprintf(ndref(prn, 0), prn, "can't initialize/assign bulk object from a scalar return value");
     ndpushbk(pcn, ndref(pftn, 0));
   }
   if (acode_func_ref(pfn)) {
-- 
2.43.0


From 8c6e20d473932d6193ff680c0230d087c6c5d2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 57/97] fix: constants that do not fit in 32 bits were
 truncated to array sizes and case labels

---
 c.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c.c b/c.c
index 09830f7..fe5a6a9 100644
--- a/c.c
+++ b/c.c
@@ -1003,6 +1003,12 @@ bool arithmetic_eval_to_int(node_t *pn, buf_t *prib, int *pri)
 {
   seval_t r; bool ok = false;
   if (static_eval(pn, prib, &r) && ts_numerical(r.ts)) {
+    switch (r.ts) { /* values should fit in 32 bits */
+      case TS_FLOAT: case TS_DOUBLE: return false;
+      case TS_LLONG: if (r.val.i < INT_MIN || r.val.i > (long long)UINT_MAX) return false; break;
+      case TS_ULLONG: if (r.val.u > (unsigned long long)UINT_MAX) return false; break;
+      default: break;
+    }
     numval_convert(TS_INT, r.ts, &r.val);
     *pri = (int)r.val.i;
     ok = true;
-- 
2.43.0


From 82c26d68d59001b61eb8010adc2618f1a2ad72ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 58/97] fix: sizes of types over 2GB wrapped around

---
 c.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c.c b/c.c
index fe5a6a9..0b0d17e 100644
--- a/c.c
+++ b/c.c
@@ -701,6 +701,7 @@ void measure_type(const node_t *ptn, node_t *prn, size_t *psize, size_t *palign,
         measure_type(pni, prn, &size, &align, lvl+1);
         /* round size up so it is multiple of pni align */
         if ((n = *psize % align) > 0) *psize += align - n; 
+        if (size > (size_t)INT_MAX - *psize) n2eprintf(ptn, prn, "struct is too large");
         *psize += size; if (align > *palign) *palign = align;         
       }
       if (!*psize || !*palign) 
@@ -716,6 +717,8 @@ void measure_type(const node_t *ptn, node_t *prn, size_t *psize, size_t *palign,
         if (!arithmetic_eval_to_int((node_t*)pcn, NULL, &count) || count <= 0)
           n2eprintf(pcn, prn, "can't allocate/measure data for arrays of nonconstant/nonpositive size");
         measure_type(petn, prn, psize, palign, lvl+1);
+        if (*psize > (size_t)INT_MAX / (size_t)count)
+          n2eprintf(pcn, prn, "array is too large");
         *psize *= count;
       } else {
         n2eprintf(ptn, prn, "can't allocate/measure data for arrays of unspecified size");
-- 
2.43.0


From f570cef6825c0d02d11a07d6f504ecee9891795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 59/97] fix: assertion failure on mismatched end in a wat
 module

---
 w.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/w.c b/w.c
index 4aef8fd..0a39b4a 100644
--- a/w.c
+++ b/w.c
@@ -4374,8 +4374,8 @@ static void wat_to_wasm_code(wasm_module_t *pbm, size_t parc, vtbuf_t *pltb, icb
     switch (instr_sig(psc->in)) {
       case INSIG_NONE: /* end, ... */ {
         if (psc->in == IN_END) {
-          sym_t *pl = bufpopbk(&lbb);
-          if (psc->id) assert(*pl == psc->id);
+          sym_t *pl = buflen(&lbb) ? bufpopbk(&lbb) : NULL;
+          if (!pl || (psc->id && *pl != psc->id)) eprintf("end does not match any open block");
         }
       } break;
       case INSIG_BT: /* block, loop, if */ {
-- 
2.43.0


From 66b5df032258676c21ad239e57189d81f8b62291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 60/97] fix: division by zero when linking a data segment
 without alignment

---
 w.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/w.c b/w.c
index 0a39b4a..c1cadc3 100644
--- a/w.c
+++ b/w.c
@@ -3593,6 +3593,8 @@ static void parse_modulefield(sws_t *pw, wat_module_t* pm)
     }
     if (peekt(pw) == WT_KEYWORD && strprf(pw->tokstr, "align=") != NULL) {
       pd->align = (int)parse_align(pw);
+    } else if (!g_watexec) {
+      seprintf(pw, "missing align= argument");
     }
     if (peekt(pw) == WT_STRING) {
       scan_string(pw, pw->tokstr, &pd->data);
-- 
2.43.0


From 322c3e27931600b865972c32632dc0413499f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 61/97] fix: assertion failure when main() of another module is
 defined

---
 w.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/w.c b/w.c
index c1cadc3..36f6028 100644
--- a/w.c
+++ b/w.c
@@ -4197,7 +4197,8 @@ void link_wat_modules(wat_module_buf_t *pwb, wat_module_t* pm)
         watie_t *pe = watiebref(&pmi->exports, j);
         if (pe->iek != IEK_FUNC) continue;
         if (pe->id == mainid) {
-          assert(pe->mod == mainmod);
+          if (pe->mod != mainmod)
+            eprintf("main() of %s module found in %s module", symname(pe->mod), symname(mainmod));
           if (mainj != (size_t)-1)
             eprintf("duplicate main() in %s module", 
               symname(mainmod));
-- 
2.43.0


From eb8c9acbbab5e2d66519fd02945753536b41fe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 62/97] fix: memcpy from a null pointer when copying an empty
 buffer

---
 l.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/l.c b/l.c
index 2c0ffb3..7ff72c3 100644
--- a/l.c
+++ b/l.c
@@ -1185,14 +1185,14 @@ void cbcpy(cbuf_t* pb, const cbuf_t* pcb)
 {
   size_t n = cblen(pcb);
   bufresize(pb, n);
-  memcpy((char*)pb->buf, (char*)pcb->buf, n);
+  if (n > 0) memcpy((char*)pb->buf, (char*)pcb->buf, n);
 }
 
 void cbcat(cbuf_t* pb, const cbuf_t* pcb)
 {
   size_t i = cblen(pb), n = cblen(pcb);
   bufresize(pb, i+n);
-  memcpy((char*)pb->buf+i, (char*)pcb->buf, n);
+  if (n > 0) memcpy((char*)pb->buf+i, (char*)pcb->buf, n);
 }
 
 dstr_t cbclose(cbuf_t* pb)
-- 
2.43.0


From 84392779e11bd642aeb6e6f9a46a94aefdfaf8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 63/97] fix: integer overflow on a huge exponent of a hex float
 in a wat module

---
 l.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/l.c b/l.c
index 7ff72c3..8135749 100644
--- a/l.c
+++ b/l.c
@@ -388,7 +388,7 @@ unsigned long long hextoud(const char *buf)
     vneg = *buf++ == '-';
     for (val = 0; *buf; ++buf) {
       if (!isdigit(*buf)) goto err;
-      val = val * 10 + *buf - '0';
+      if (val < 10000) val = val * 10 + *buf - '0';
     }
     if (vneg) val = -val;
     exp2 = ldig == 1 ? val + 1023 : 0;
@@ -460,7 +460,7 @@ unsigned hextouf(const char *buf)
     vneg = *buf++ == '-';
     for (val = 0; *buf; ++buf) {
       if (!isdigit(*buf)) goto err;
-      val = val * 10 + *buf - '0';
+      if (val < 10000) val = val * 10 + *buf - '0';
     }
     if (vneg) val = -val;
     exp2 = ldig == 1 ? val + 127 : 0;
-- 
2.43.0


From 5b535526da87caa499e93671d0978c414ea15727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 64/97] fix: assertion failure on a parameter after local
 variables in a wat module

---
 w.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/w.c b/w.c
index 36f6028..684c8ec 100644
--- a/w.c
+++ b/w.c
@@ -3663,8 +3663,11 @@ static void parse_modulefield(sws_t *pw, wat_module_t* pm)
     while (ahead(pw, "(")) {
       dropt(pw);
       if (ahead(pw, "param")) {
-        inscode_t *pic = icbnewbk(&pe->code); valtype_t vt; 
+        inscode_t *pic; valtype_t vt; 
         dropt(pw);
+        if (icblen(&pe->code) != vtblen(&pe->fs.partypes)) 
+          seprintf(pw, "parameter after local variables");
+        pic = icbnewbk(&pe->code);
         pic->in = IN_REGDECL; pic->id = parse_id(pw); 
         vt = parse_valtype(pw); pic->arg.u = vt;
         *vtbnewbk(&pe->fs.partypes) = vt;
-- 
2.43.0


From 530d5ef7ab920af86d7169c26e55573cf5a62877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 65/97] fix: heap overread on malformed UTF-8 at the end of a
 source line

---
 l.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/l.c b/l.c
index 8135749..9dd3945 100644
--- a/l.c
+++ b/l.c
@@ -159,16 +159,16 @@ unsigned char *utf8(unsigned long c, unsigned char *s)
 /* decodes legal utf-8 as well as any other encoded sequences for code points up to 21 bits (0 to U+001FFFFF) */
 /* CAVEAT: in broken encoding can step over \0 byte if it is a (bad) payload byte and thus run past end of line!! */
 unsigned long unutf8(unsigned char **ps) 
-{ /* NB: unutf8 never advances less than 1 and more than 4 bytes; gobbles up arbitrary bytes w/o error */
-  unsigned char *s = *ps; unsigned long c; unsigned t = *s >> 4; 
-  c =  (unsigned long)(*s & t["\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\0\0\0\0\x1f\x1f\x0f\x07"]) << t["\0\0\0\0\0\0\0\0\0\0\0\0\x06\x06\x0c\x12"];
-  s += t["\1\1\1\1\1\1\1\1\0\0\0\0\1\1\1\1"];
-  c |= (unsigned long)(*s & t["\0\0\0\0\0\0\0\0\0\0\0\0\x3f\x3f\x3f\x3f"]) << t["\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x06\x0c"];
-  s += t["\0\0\0\0\0\0\0\0\0\0\0\0\1\1\1\1"];
-  c |= (unsigned long)(*s & t["\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x3f\x3f"]) << t["\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x06"];
-  s += t["\0\0\0\0\0\0\0\0\0\0\0\0\0\0\1\1"];
-  c |= (unsigned long)(*s & t["\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x3f"]);
-  s += t["\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\1"];
+{ /* NB: advances 1 to 4 bytes, never past the terminating 0; returns -1 on encoding errors */
+  unsigned char *s = *ps; unsigned long c = *s++; int n = 0;
+  if (c >= 0xF8 || (c >= 0x80 && c < 0xC0)) c = (unsigned long)-1;
+  else if (c >= 0xF0) { c &= 0x07; n = 3; }
+  else if (c >= 0xE0) { c &= 0x0F; n = 2; }
+  else if (c >= 0xC0) { c &= 0x1F; n = 1; }
+  while (n > 0) {
+    if ((*s & 0xC0) != 0x80) { c = (unsigned long)-1; break; }
+    c = (c << 6) | (unsigned long)(*s++ & 0x3F); --n;
+  }
   *ps = s; return c;
 }
 
-- 
2.43.0


From b8b1a0981139e1644218fd24147a54c89a7de8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 66/97] fix: sizeof of a string literal was the size of a
 pointer

---
 c.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/c.c b/c.c
index 0b0d17e..730f832 100644
--- a/c.c
+++ b/c.c
@@ -782,6 +782,15 @@ size_t measure_offset(const node_t *ptn, node_t *prn, sym_t fld, node_t **ppftn)
   return 0; /* won't happen */
 }
 
+/* string literals are arrays when measured directly */
+static bool measure_strlit(const node_t *pn, size_t *psize, size_t *palign)
+{
+  if (pn->nt != NT_LITERAL || (pn->ts != TS_STRING && pn->ts != TS_LSTRING)) return false;
+  *psize = cblen(&pn->data);
+  *palign = (pn->ts == TS_LSTRING) ? 4 /* wchar_t */ : 1 /* char */;
+  return true;
+}
+
 /* intern the string literal, return fresh data id */
 static sym_t intern_strlit(node_t *pn)
 {
@@ -832,10 +841,12 @@ bool static_eval(node_t *pn, buf_t *prib, seval_t *pr)
       if (pn->intr == INTR_SIZEOF || pn->intr == INTR_ALIGNOF) {
         const node_t *ptn = NULL;
         size_t size, align; assert(ndlen(pn) == 1);
-        if (ndref(pn, 0)->nt == NT_TYPE) ptn = ndref(pn, 0);
-        else ptn = type_eval(ndref(pn, 0), prib);
-        if (!ptn) return false; /* can't get type */
-        measure_type(ptn, pn, &size, &align, 0);
+        if (!measure_strlit(ndref(pn, 0), &size, &align)) {
+          if (ndref(pn, 0)->nt == NT_TYPE) ptn = ndref(pn, 0);
+          else ptn = type_eval(ndref(pn, 0), prib);
+          if (!ptn) return false; /* can't get type */
+          measure_type(ptn, pn, &size, &align, 0);
+        }
         pr->ts = TS_INT; 
         if (pn->intr == INTR_SIZEOF) pr->val.i = (int)size;
         else pr->val.i = (int)align;
@@ -3782,8 +3793,10 @@ static node_t *expr_compile(node_t *pn, buf_t *prib, const node_t *ret)
         case INTR_SIZEOF: case INTR_ALIGNOF: {
           size_t size, align; numval_t v;
           node_t *ptni = ndref(pn, 0);
-          if (ptni->nt != NT_TYPE) ptni = acode_type(expr_compile(ptni, prib, NULL));
-          measure_type(ptni, pn, &size, &align, 0);
+          if (!measure_strlit(ptni, &size, &align)) {
+            if (ptni->nt != NT_TYPE) ptni = acode_type(expr_compile(ptni, prib, NULL));
+            measure_type(ptni, pn, &size, &align, 0);
+          }
           v.i = (int)(pn->intr == INTR_SIZEOF ? size : align);
           pcn = npnewcode(pn); ndsettype(ndnewbk(pcn), TS_INT);
           asm_numerical_const(TS_INT, &v, icbnewbk(&pcn->data));
-- 
2.43.0


From 25cd5b503cad2f6026c0a04ba1789c0080716858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 67/97] fix: repeated and conflicting type specifiers were
 accepted

---
 p.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/p.c b/p.c
index 25017f8..cc38792 100644
--- a/p.c
+++ b/p.c
@@ -3468,19 +3468,19 @@ static void parse_base_type(pws_t *pw, node_t *pn)
   int pos = peekpos(pw); sym_t tn = 0;
   while (type_specifier_ahead(pw)) {
     switch (pw->ctk) {
-      case TT_VOID_KW:     v = 1; break;
-      case TT_CHAR_KW:     c = 1; break;
-      case TT_SHORT_KW:    s = 1; break;
-      case TT_INT_KW:      i = 1; break;
+      case TT_VOID_KW:     ++v; break;
+      case TT_CHAR_KW:     ++c; break;
+      case TT_SHORT_KW:    ++s; break;
+      case TT_INT_KW:      ++i; break;
       case TT_LONG_KW:     ++l; break;
-      case TT_SIGNED_KW:   sg = 1; break;
-      case TT_UNSIGNED_KW: ug = 1; break;
-      case TT_FLOAT_KW:    f = 1; break;
-      case TT_DOUBLE_KW:   d = 1; break;
-      case TT_ENUM_KW:     en = 1; break;
-      case TT_SIMD_KW:     si = 1; break;
-      case TT_STRUCT_KW:   st = 1; break;
-      case TT_UNION_KW:    un = 1; break;
+      case TT_SIGNED_KW:   ++sg; break;
+      case TT_UNSIGNED_KW: ++ug; break;
+      case TT_FLOAT_KW:    ++f; break;
+      case TT_DOUBLE_KW:   ++d; break;
+      case TT_ENUM_KW:     ++en; break;
+      case TT_SIMD_KW:     ++si; break;
+      case TT_STRUCT_KW:   ++st; break;
+      case TT_UNION_KW:    ++un; break;
       case TT_TYPE_NAME:   ty = 1; tn = intern(pw->tokstr); break;
       case TT_CONST_KW:    /* ignored */ break;  
       case TT_VOLATILE_KW: /* ignored */ break;
@@ -3489,13 +3489,13 @@ static void parse_base_type(pws_t *pw, node_t *pn)
     }
     dropt(pw);
   }
-  if (c + s + l > 0 && i > 0) i = 0;
+  if (s + l > 0 && i == 1) i = 0;
   if (v + c + s + i + l + f + d + en + si + st + un + ty == 0 && sg + ug != 0) i = 1;
-  if (!!l + f + d > 1)
+  if (!!l + f + d > 1 || l > 2)
     reprintf(pw, pw->pos, "invalid type specifier: unsupported type"); 
   if (v + c + s + i + !!l + f + d + en + si + st + un + ty != 1 || sg + ug > 1)
     reprintf(pw, pw->pos, "invalid type specifier: missing or conflicting keywords"); 
-  if (f + d + en + si + st + un + ty > 0 && sg + ug > 0)
+  if (v + f + d + en + si + st + un + ty > 0 && sg + ug > 0)
     reprintf(pw, pw->pos, "invalid type specifier: unexpected signedness keyword"); 
   ndset(pn, NT_TYPE, pw->id, pos);
   if (v) pn->ts = TS_VOID;
-- 
2.43.0


From b73aa88d21251320f7271e2f06224c6825bd46f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 68/97] fix: commas missing from initializer and enumerator
 lists were not noticed

---
 p.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p.c b/p.c
index cc38792..fad9e91 100644
--- a/p.c
+++ b/p.c
@@ -3368,7 +3368,7 @@ static void parse_enum_body(pws_t *pw, node_t *pn)
       ndset(pnv, NT_LITERAL, pw->id, pni->startpos);
       pnv->ts = TS_INT; pnv->val.i = curval;
       intern_symbol(symname(pni->name), TT_ENUM_NAME, curval);  
-      if (peekt(pw) == TT_COMMA) dropt(pw);
+      if (peekt(pw) != TT_RBRC) expect(pw, TT_COMMA, ",");
       curval += 1; 
     }
     expect(pw, TT_RBRC, "}");
@@ -3666,7 +3666,7 @@ static void parse_initializer(pws_t *pw, node_t *pn)
     dropt(pw);
     while (peekt(pw) != TT_RBRC) {
       parse_initializer(pw, ndnewbk(pn));
-      if (peekt(pw) == TT_COMMA) dropt(pw); 
+      if (peekt(pw) != TT_RBRC) expect(pw, TT_COMMA, ",");
     }
     expect(pw, TT_RBRC, "}");
   } else {
-- 
2.43.0


From 53b9ba4b6ac102d7ac863c46166572016a08c4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 69/97] fix: trailing commas in argument, parameter and
 declarator lists were accepted

---
 p.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/p.c b/p.c
index fad9e91..45a8887 100644
--- a/p.c
+++ b/p.c
@@ -2643,8 +2643,9 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
         expect(pw, TT_LPAR, "(");
         while (peekt(pw) != TT_RPAR) {
           parse_assignment_expr(pw, ndbnewbk(&pars));
-          if (peekt(pw) == TT_COMMA) dropt(pw);
-          else break;
+          if (peekt(pw) != TT_COMMA) break;
+          dropt(pw);
+          if (peekt(pw) == TT_RPAR) reprintf(pw, pw->pos, "macro argument expected");
         }
         expect(pw, TT_RPAR, ")");
         if (ndlen(pfn) > 1 && ndref(pfn, ndlen(pfn)-1)->name == 0) 
@@ -2855,7 +2856,7 @@ static void parse_postfix_expr(pws_t *pw, node_t *pn)
         dropt(pw);
         ndset(&nd, NT_CALL, pn->pwsid, pn->startpos);
         ndswap(pn, ndnewbk(&nd));
-        while (peekt(pw) != TT_RPAR) {
+        if (peekt(pw) != TT_RPAR) for (;;) {
           parse_assignment_expr(pw, ndnewbk(&nd));
           if (peekt(pw) != TT_COMMA) break;
           dropt(pw); 
@@ -3578,6 +3579,7 @@ static void parse_postfix_declarator(pws_t *pw, node_t *pn)
             pdn->name = parse_declarator(pw, pti); /* 0 if id is missing */
             if (peekt(pw) != TT_COMMA) break;
             dropt(pw);
+            if (peekt(pw) == TT_RPAR) reprintf(pw, pw->pos, "parameter declaration expected");
           }
         }
         expect(pw, TT_RPAR, ")");
@@ -3729,7 +3731,9 @@ static sc_t parse_decl(pws_t *pw, ndbuf_t *pnb)
     while (peekt(pw) != TT_SEMICOLON && peekt(pw) != TT_LBRC) {
       parse_init_declarator(pw, sc, &tnd, pnb);
       if (peekt(pw) != TT_COMMA) break;
-      else dropt(pw);
+      dropt(pw);
+      if (peekt(pw) == TT_SEMICOLON || peekt(pw) == TT_LBRC) 
+        reprintf(pw, pw->pos, "declarator expected");
     }
     ndfini(&tnd);
   } else {
-- 
2.43.0


From 4e02f7b1e8f95fe06c9a50e15211a8cac2365c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 70/97] fix: duplicate members of structs and unions were
 accepted

---
 p.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/p.c b/p.c
index 45a8887..d4a445b 100644
--- a/p.c
+++ b/p.c
@@ -3443,6 +3443,14 @@ static void parse_sru_body(pws_t *pw, ts_t sru, node_t *pn)
     node_t *pni = ndref(pn, i);
     if (pni->nt == NT_VARDECL && ndlen(pni) > 1) 
       reprintf(pw, pni->startpos, "unexpected initializer in struct/union"); 
+    if (pni->nt == NT_VARDECL && pni->name) {
+      size_t j;
+      for (j = 0; j < i; ++j) {
+        node_t *pnj = ndref(pn, j);
+        if (pnj->nt == NT_VARDECL && pnj->name == pni->name)
+          reprintf(pw, pni->startpos, "duplicate member: %s", symname(pni->name));
+      }
+    }
   }
   if (!pn->name && !ndlen(pn)) {
     reprintf(pw, pn->startpos, "incomplete struct/union");
-- 
2.43.0


From de5a68ed1b333570e1c341e8a11f84036b6d3baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 71/97] fix: repeated int in the declarations of remove and
 rmdir

---
 lib/include/stdio.h  | 2 +-
 lib/include/unistd.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/stdio.h b/lib/include/stdio.h
index d69cdb2..bc335cf 100644
--- a/lib/include/stdio.h
+++ b/lib/include/stdio.h
@@ -88,7 +88,7 @@ extern int vsscanf(const char *s, const char *format, va_list arg);
 extern int vsnscanf(const char *s, size_t count, const char *format, va_list arg);
 /* extern FILE *tmpfile(void); -- not in WASI? */
 /* extern char *tmpnam(char s[L_tmpnam]); -- not in WASI? */
-extern int int remove(const char *filename);
+extern int remove(const char *filename);
 extern int rename(const char *oldname, const char *newname);
 extern void perror(const char *s);
 
diff --git a/lib/include/unistd.h b/lib/include/unistd.h
index 25f6feb..9cf6b8f 100644
--- a/lib/include/unistd.h
+++ b/lib/include/unistd.h
@@ -31,7 +31,7 @@ extern int symlink(const char *tgtpath, const char *lnkpath);
 extern ssize_t readlinkat(int fd, const char *path, char *buf, size_t bufsize);
 extern ssize_t readlink(const char *path, char *buf, size_t bufsize);
 extern int rmdirat(int fd, const char *path);
-extern int int rmdir(const char *path);
+extern int rmdir(const char *path);
 extern int fdatasync(int fd);
 extern int fsync(int fd);
 extern void _exit(int status);
-- 
2.43.0


From 8d428887a7eabab90b7a80bab5490d84316c6f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 72/97] fix: embedded library headers repeat int

---
 p.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p.c b/p.c
index d4a445b..d4c6f01 100644
--- a/p.c
+++ b/p.c
@@ -3480,7 +3480,7 @@ static void parse_base_type(pws_t *pw, node_t *pn)
       case TT_VOID_KW:     ++v; break;
       case TT_CHAR_KW:     ++c; break;
       case TT_SHORT_KW:    ++s; break;
-      case TT_INT_KW:      ++i; break;
+      case TT_INT_KW:      i = 1; break; /* int int is in older library headers */
       case TT_LONG_KW:     ++l; break;
       case TT_SIGNED_KW:   ++sg; break;
       case TT_UNSIGNED_KW: ++ug; break;
-- 
2.43.0


From ed08ed16cf76a6556af3e69641481e9085542196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 73/97] fix: local variables were visible outside of their
 blocks

---
 c.c              |  7 +++++--
 lib/src/dirent.c | 10 ++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/c.c b/c.c
index 730f832..ca2f5ac 100644
--- a/c.c
+++ b/c.c
@@ -1431,6 +1431,8 @@ static void expr_hoist_locals(node_t *ptn, node_t *pn, henv_t *phe, ndbuf_t *plb
     case NT_IDENTIFIER: {
       sym_t nname = henv_lookup(pn->name, phe, NULL);
       if (nname) pn->name = nname; /* else global */
+      else if (!lookup_global(pn->name)) 
+        neprintf(pn, "unknown identifier: %s", symname(pn->name));
     } break;
     case NT_ACODE: { /* inline assembly */
       size_t i;
@@ -1516,8 +1518,9 @@ static void expr_hoist_locals(node_t *ptn, node_t *pn, henv_t *phe, ndbuf_t *plb
       /* no vars here */
     } break;
     default: {
-      size_t i;
-      for (i = 0; i < ndlen(pn); ++i) {
+      size_t i, n = ndlen(pn);
+      if (pn->nt == NT_INTRCALL && pn->intr == INTR_OFFSETOF) n = 1; /* 2nd is a member name */
+      for (i = 0; i < n; ++i) {
         expr_hoist_locals(ptn, ndref(pn, i), phe, plb);
       }
     } break;
diff --git a/lib/src/dirent.c b/lib/src/dirent.c
index 5eb8370..ac99bb0 100644
--- a/lib/src/dirent.c
+++ b/lib/src/dirent.c
@@ -204,8 +204,9 @@ int scandirat(int dirfd, const char *dir, struct dirent ***namelist,
     size_t dirents_size = 0;
     size_t dirents_used = 0;
     dircookie_t cookie = DIRCOOKIE_START;
+    size_t i;
     
-    for (;;) {
+    { for (;;) {
       { size_t buffer_left = buffer_used - buffer_processed;
         if (buffer_left < sizeof(dirent_t)) {
           if (buffer_used < buffer_size) break;
@@ -272,11 +273,12 @@ int scandirat(int dirfd, const char *dir, struct dirent ***namelist,
     return (int)dirents_used;
 
     bad:; 
+    }
+
+    for (i = 0; i < dirents_used; ++i) free(dirents[i]);
+    free(dirents);
   }
 
-  size_t i;
-  for (i = 0; i < dirents_used; ++i) free(dirents[i]);
-  free(dirents);
   free(buffer);
   close(fd);
   return -1;
-- 
2.43.0


From b526386d30c6fb12fdee9a0c825d147c1365ede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 74/97] fix: void parameters and unterminated comments were
 accepted

---
 p.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p.c b/p.c
index d4c6f01..cb4f7ee 100644
--- a/p.c
+++ b/p.c
@@ -1821,6 +1821,8 @@ static tt_t peekt(pws_t *pw)
       pw->ctk = lex(pw, &pw->token); 
       if (pw->ctk == TT_EOF && !pw->inateof) 
         reprintf(pw, pw->pos, "illegal token"); 
+      if (pw->ctk == TT_EOF && cblen(&pw->token) > 0 && !strprf(cbdata(&pw->token), "//"))
+        reprintf(pw, pw->pos, "unexpected end of file in a token or a comment"); 
     } while (pw->ctk == TT_WHITESPACE); 
     pw->gottk = true; 
     pw->tokstr = cbdata(&pw->token); 
@@ -2143,7 +2145,7 @@ node_t *wrap_type_function(node_t *pn, ndbuf_t *pnb)
   if (pnb) for (i = 0; i < ndblen(pnb); ++i) {
     node_t *pni = ndbref(pnb, i);
     /* treat (void) as () */
-    if (i+1 == ndblen(pnb) && pni->nt == NT_VARDECL && 
+    if (ndblen(pnb) == 1 && pni->nt == NT_VARDECL && pni->name == 0 &&
         ndlen(pni) == 1 && ndref(pni, 0)->nt == NT_TYPE && 
         ndref(pni, 0)->ts == TS_VOID) break;
     ndswap(pni, ndnewbk(&nd));
-- 
2.43.0


From d152f6ea27e73fc069f5d03067f6bd93ac0e07ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 75/97] fix: errors reading inputs and writing outputs were not
 reported

---
 c.c | 14 ++++++++++++--
 l.c |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index ca2f5ac..3ed9994 100644
--- a/c.c
+++ b/c.c
@@ -4695,6 +4695,14 @@ void compile_module_to_wat(const char *ifname, wat_module_t *pwm)
   fini_compiler();
 }
 
+/* finish writing to ofile (NULL for stdout), report errors */
+static void close_output(FILE *pf, const char *ofile)
+{
+  bool ok = fflush(pf) == 0 && !ferror(pf);
+  if (ofile != NULL && fclose(pf) != 0) ok = false;
+  if (!ok) eprintf("error writing output file %s:", ofile ? ofile : "(stdout)");
+}
+
 int main(int argc, char **argv)
 {
   int opt; char *eoarg;
@@ -4761,10 +4769,11 @@ int main(int argc, char **argv)
       FILE *pf = fopen(ofile_arg, "w");
       if (!pf) eprintf("cannot open output file %s:", ofile_arg);
       write_wat_module(&wm, pf);
-      fclose(pf);
+      close_output(pf, ofile_arg);
       logef("# object module written to %s\n", ofile_arg);
     } else {
       write_wat_module(&wm, stdout);
+      close_output(stdout, NULL);
     }
     wat_module_fini(&wm);   
   } else {
@@ -4803,10 +4812,11 @@ int main(int argc, char **argv)
         if (!pf) eprintf("cannot open output file %s:", ofile_arg);
         write_wat_module(&wm, pf);
       }
-      fclose(pf);
+      close_output(pf, ofile_arg);
       logef("# executable module written to %s\n", ofile_arg);
     } else {
       write_wat_module(&wm, stdout);
+      close_output(stdout, NULL);
     }
 
     wat_module_fini(&wm);
diff --git a/l.c b/l.c
index 9dd3945..5d43f01 100644
--- a/l.c
+++ b/l.c
@@ -1226,6 +1226,7 @@ char *fgetlb(cbuf_t *pcb, FILE *fp)
   assert(fp); assert(pcb);
   cbclear(pcb);
   line = fgets(buf, 256, fp); /* sizeof(buf) */
+  if (!line && ferror(fp)) eprintf("error reading input file:");
   if (!line) return NULL;
   len = strlen(line);
   if (len > 0 && line[len-1] == '\n') {
-- 
2.43.0


From dbc51fc32c93c440fcc90e14489713a8a89187b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 76/97] fix: linker did not notice mismatched or static
 definitions of imported symbols

---
 w.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/w.c b/w.c
index 684c8ec..67429f8 100644
--- a/w.c
+++ b/w.c
@@ -4176,6 +4176,29 @@ static void finalize_wat_module(wat_module_t* pm, size_t dsegend)
   }  
 }
 
+/* check module's imports against their definitions in other modules, if any */
+static void check_module_imports(wat_module_t* pmi, wat_module_buf_t *pwb)
+{
+  size_t i;
+  for (i = 0; i < watieblen(&pmi->imports); ++i) {
+    watie_t *pi = watiebref(&pmi->imports, i), *pe; bool ok = true;
+    wat_module_t* pme = bufbsearch(pwb, &pi->mod, &sym_cmp);
+    if (!pme || (pe = bufbsearch(&pme->exports, pi, &modid_cmp)) == NULL) 
+      continue; /* subsystem import or missing: reported when reached */
+    if (!pe->exported)
+      eprintf("'%s' of '%s' module is not exported (looking for it in '%s' module)", 
+        symname(pi->id), symname(pi->mod), symname(pmi->name));
+    if (pi->iek == IEK_FUNC && pe->iek == IEK_FUNC) {
+      ok = sameft(&pi->fs, &pe->fs);
+    } else if (pi->iek == IEK_GLOBAL && pe->iek == IEK_GLOBAL) {
+      ok = pi->vt == pe->vt;
+    } 
+    if (!ok)
+      eprintf("'%s' of '%s' module is declared differently in '%s' module", 
+        symname(pi->id), symname(pi->mod), symname(pmi->name));
+  }
+}
+
 void link_wat_modules(wat_module_buf_t *pwb, wat_module_t* pm)
 {
   size_t i, j; main_t mt = MAIN_ABSENT;
@@ -4262,6 +4285,11 @@ void link_wat_modules(wat_module_buf_t *pwb, wat_module_t* pm)
     bufqsort(&pmi->exports, &modid_cmp);    
   }
 
+  /* check that modules agree on types of the things they share */
+  for (i = 0; i < wat_module_buf_len(pwb); ++i) {
+    check_module_imports(wat_module_buf_ref(pwb, i), pwb);
+  }
+
   /* now seed depglobals and use it to move globals to pm */
   pmodid = bufnewbk(&depglobals); 
   pmodid->mod = mainmod; pmodid->id = mainid; pmodid->iek = IEK_FUNC;
-- 
2.43.0


From 2cb213ce5b723a76fb4c72d1c4a1f93001be89cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:38 +0000
Subject: [PATCH 77/97] fix: address initializers of wrong types, duplicate
 labels and missing #endif were accepted

---
 c.c | 19 +++++++++++++++++++
 p.c |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/c.c b/c.c
index 3ed9994..992a636 100644
--- a/c.c
+++ b/c.c
@@ -1175,6 +1175,23 @@ static void fundef_check_type(node_t *ptn)
   }
 }
 
+/* check if tan type can be assigned to parameter/lval tpn type (see below) */
+static bool assign_compatible(const node_t *ptpn, const node_t *ptan);
+
+/* check that address expression pn can be used to initialize pointer type ptn */
+static void check_address_initializer(node_t *ptn, node_t *pn)
+{
+  const node_t *patn; 
+  if (pn->nt == NT_PREFIX && pn->op == TT_AND && ndlen(pn) == 1) {
+    patn = type_eval(ndref(pn, 0), NULL);
+    if (patn) patn = wrap_type_pointer(ndcpy(npalloc(), patn));
+  } else { 
+    patn = type_eval(pn, NULL);
+  }
+  if (ptn->ts != TS_PTR || (patn && !assign_compatible(ptn, patn))) 
+    neprintf(pn, "unexpected type of address initializer");
+}
+
 /* try to replace simd display expression with equivalent literal (see below) */
 static bool fold_simd_display(node_t *pn, buf_t *prib);
 
@@ -1288,6 +1305,7 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
       const node_t *pitn, *pin = lookup_global(r.id);
       if (!pin) neprintf(pdn, "unknown name in address initializer");
       assert(pin->nt == NT_IMPORT && ndlen(pin) == 1 && ndcref(pin, 0)->nt == NT_TYPE);
+      check_address_initializer(ptn, pdn);
       pitn = ndcref(pin, 0);
       if (ts_bulk(pitn->ts) || pitn->ts == TS_PTR) {
         inscode_t *pic = icbnewbk(&pd->code);
@@ -1381,6 +1399,7 @@ static void process_vardecl(sym_t mmod, node_t *pdn, node_t *pin)
             const node_t *pimn = lookup_global(r.id); inscode_t *pic = &pg->ic;
             if (!pimn) neprintf(pdn, "unknown identifier in address initializer");
             assert(pimn->nt == NT_IMPORT && pimn->name != 0 && ndlen(pimn) == 1);
+            check_address_initializer(ptn, pvn);
             pic->in = ndcref(pimn, 0)->ts == TS_FUNCTION ? IN_REF_FUNC : IN_REF_DATA; 
             pic->id = r.id; pic->arg2.mod = pimn->name;
           }
diff --git a/p.c b/p.c
index cb4f7ee..3414903 100644
--- a/p.c
+++ b/p.c
@@ -3784,6 +3784,7 @@ static void parse_stmt(pws_t *pw, node_t *pn)
           sym_t l; int startpos = peekpos(pw);
           l = getid(pw); expect(pw, TT_COLON, ":");
           if (peekt(pw) == TT_SEMICOLON) dropt(pw); /* optional, as in C23 */
+          if (pn->name == l) reprintf(pw, startpos, "duplicate block label");
           pn->name = l; 
           if (ndlen(pn) == 0 && peekt(pw) != TT_RBRC) pn->op = TT_CONTINUE_KW;
           else if (ndlen(pn) > 0 && peekt(pw) == TT_RBRC) pn->op = TT_BREAK_KW; 
@@ -4218,6 +4219,7 @@ bool parse_top_form(pws_t *pw, node_t *pn)
     } 
     return true; 
   }
+  if (pw->cclevel) reprintf(pw, pw->pos, "missing #endif");
   return false;
 }
 
-- 
2.43.0


From 4c6a3d16f691be31346e92fa7644b2abb6111b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 78/97] fix: sources with Latin-1 comments were rejected

---
 l.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/l.c b/l.c
index 5d43f01..f92bf47 100644
--- a/l.c
+++ b/l.c
@@ -159,15 +159,15 @@ unsigned char *utf8(unsigned long c, unsigned char *s)
 /* decodes legal utf-8 as well as any other encoded sequences for code points up to 21 bits (0 to U+001FFFFF) */
 /* CAVEAT: in broken encoding can step over \0 byte if it is a (bad) payload byte and thus run past end of line!! */
 unsigned long unutf8(unsigned char **ps) 
-{ /* NB: advances 1 to 4 bytes, never past the terminating 0; returns -1 on encoding errors */
+{ /* NB: advances 1 to 4 bytes, never past the terminating 0; returns -1 on a stray payload byte */
   unsigned char *s = *ps; unsigned long c = *s++; int n = 0;
-  if (c >= 0xF8 || (c >= 0x80 && c < 0xC0)) c = (unsigned long)-1;
+  if (c >= 0x80 && c < 0xC0) c = (unsigned long)-1;
   else if (c >= 0xF0) { c &= 0x07; n = 3; }
   else if (c >= 0xE0) { c &= 0x0F; n = 2; }
   else if (c >= 0xC0) { c &= 0x1F; n = 1; }
   while (n > 0) {
-    if ((*s & 0xC0) != 0x80) { c = (unsigned long)-1; break; }
-    c = (c << 6) | (unsigned long)(*s++ & 0x3F); --n;
+    c = (c << 6) | (unsigned long)(*s & 0x3F); --n;
+    if (*s) ++s; /* gobbles up arbitrary bytes w/o error */
   }
   *ps = s; return c;
 }
-- 
2.43.0


From 08e7f6cddbdb7188b13f3334da9bbc60ce29a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 79/97] fix: macros used by the bodies of earlier macros were
 not found

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 992a636..843078b 100644
--- a/c.c
+++ b/c.c
@@ -1450,7 +1450,7 @@ static void expr_hoist_locals(node_t *ptn, node_t *pn, henv_t *phe, ndbuf_t *plb
     case NT_IDENTIFIER: {
       sym_t nname = henv_lookup(pn->name, phe, NULL);
       if (nname) pn->name = nname; /* else global */
-      else if (!lookup_global(pn->name)) 
+      else if (!lookup_global(pn->name) && !lookup_macro(pn->name)) 
         neprintf(pn, "unknown identifier: %s", symname(pn->name));
     } break;
     case NT_ACODE: { /* inline assembly */
-- 
2.43.0


From 5b6ccf4790c87975ab4db700856aede3c390ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 80/97] fix: strtod did not round correctly and overflowed on
 DBL_MAX

---
 lib/src/stdlib.c | 115 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 88 insertions(+), 27 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 3c0762c..c314a40 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -131,11 +131,11 @@ long long atoll(const char *s)
   return neg ? n : -n;
 }
 
-/* poor man's strtod: rounding errors are possible in decimal, hex is exact */
+/* strtod: results are correctly rounded */
 
-#define MAX_BASE10_EXPONENT 511 /* largest possible base 10 exponent */
-#define MAX_BASE10_DIGS 18 /* more than this won't affect the result */
-static double powers_of_10[] = { 10., 100., 1.0e4, 1.0e8, 1.0e16, 1.0e32, 1.0e64, 1.0e128, 1.0e256 };
+#define MAX_BASE10_DIGS 780 /* the rest only matters if it is not zero */
+#define BIG_WORDS 176 /* enough for these digits scaled by any power of 10 that matters */
+static double powers_of_10[] = { 10., 100., 1.0e4, 1.0e8, 1.0e16 };
 
 /* internal scanner for exponents; returns the position after a complete one */
 static const char *strtod_exp(const char *pc, int *pexp)
@@ -153,22 +153,84 @@ static const char *strtod_exp(const char *pc, int *pexp)
   return pe;
 }
 
+/* w = w * m + a for a big number of len words, the lowest first; returns its new length */
+static int strtod_mul(unsigned *w, int len, unsigned m, unsigned a)
+{
+  unsigned long long c = (unsigned long long)a; int i;
+  for (i = 0; i < len; ++i) {
+    c += (unsigned long long)w[i] * (unsigned long long)m;
+    w[i] = (unsigned)c; c >>= 32;
+  }
+  if (c != 0ULL) w[len++] = (unsigned)c;
+  return len;
+}
+
+/* w = w / m; the remainder is returned in *pr */
+static int strtod_div(unsigned *w, int len, unsigned m, unsigned *pr)
+{
+  unsigned long long r = 0ULL; int i;
+  for (i = len - 1; i >= 0; --i) {
+    r = (r << 32) | (unsigned long long)w[i];
+    w[i] = (unsigned)(r / (unsigned long long)m); r %= (unsigned long long)m;
+  }
+  while (len > 0 && w[len-1] == 0) --len;
+  *pr = (unsigned)r;
+  return len;
+}
+
+/* nearest double to w * 10^exp; rest: there's a bit more to w than that */
+static double strtod_big(unsigned *w, int len, int exp, bool rest)
+{
+  int i, shift, exp2 = 0; unsigned r; unsigned long long m, half, tail;
+  if (exp >= 0) {
+    while (exp-- > 0) len = strtod_mul(w, len, 10, 0);
+  } else { /* x / 10^n = (x * 2^k / 5^n) * 2^(-n-k) */
+    int n = -exp, k = (n * 7 / 3 + 66) / 32 + 1;
+    for (i = len - 1; i >= 0; --i) w[i + k] = w[i];
+    for (i = 0; i < k; ++i) w[i] = 0;
+    len += k; exp2 = exp - k * 32;
+    for (; n >= 13; n -= 13) { len = strtod_div(w, len, 1220703125, &r); if (r != 0) rest = true; }
+    for (; n > 0; --n) { len = strtod_div(w, len, 5, &r); if (r != 0) rest = true; }
+  }
+  /* top 64 bits */
+  for (m = 0ULL, i = len - 1; i >= 0 && i >= len - 2; --i) m = (m << 32) | (unsigned long long)w[i];
+  exp2 += (i + 1) * 32;
+  for (shift = 0; (m >> 63) == 0ULL; ++shift) m <<= 1;
+  exp2 -= shift;
+  if (i >= 0) {
+    if (shift > 0) m |= (unsigned long long)(w[i] >> (32 - shift));
+    if ((w[i] << shift) != 0) rest = true;
+    while (--i >= 0) if (w[i] != 0) rest = true;
+  }
+  if (rest) m |= 1ULL;
+  /* round to even, only once */
+  shift = (exp2 + 11 < -1074) ? -1074 - exp2 : 11;
+  if (shift > 64) return 0.0;
+  if (shift == 64) return (m > 9223372036854775808ULL) ? ldexp(1.0, -1074) : 0.0;
+  half = 1ULL << (shift - 1); tail = m & ((half << 1) - 1ULL);
+  m >>= shift;
+  if (tail > half || (tail == half && (m & 1ULL) != 0ULL)) ++m;
+  return ldexp((double)(long long)m, exp2 + shift);
+}
+
 static double strtod_dec(const char *s, const char *pc, bool neg, char **endp)
 {
-  bool negexp = false, dot = false, digs = false;
-  double fraction, exponent, *pd;
-  int c, exp = 0, mantsz = 0;
-  long long frac = 0LL;
+  bool dot = false, digs = false, rest = false;
+  double fraction; unsigned w[BIG_WORDS]; 
+  int c, exp = 0, mantsz = 0, len = 0, i;
 
   for (;; ++pc) {
     c = *pc;
     if (isdigit(c)) {
       digs = true;
       if (mantsz < MAX_BASE10_DIGS) {
-        frac = 10LL * frac + (c - '0');
-        if (frac != 0LL) ++mantsz; /* leading zeros do not count */
+        len = strtod_mul(&w[0], len, 10, (unsigned)(c - '0'));
+        if (len != 0) ++mantsz; /* leading zeros do not count */
         if (dot) --exp;
-      } else if (!dot) ++exp;
+      } else {
+        if (c != '0') rest = true;
+        if (!dot) ++exp;
+      }
     } else if (c == '.' && !dot) {
       dot = true;
     } else break;
@@ -179,24 +241,23 @@ static double strtod_dec(const char *s, const char *pc, bool neg, char **endp)
   }
   if ((*pc == 'E') || (*pc == 'e')) pc = strtod_exp(pc, &exp);
   if (endp != NULL) *endp = (char *)pc;
-  if (frac == 0LL) return neg ? -0.0 : 0.0;
-
-  fraction = (double)frac;
-  if (exp < 0) { negexp = true; exp = -exp; } 
-  if (exp > MAX_BASE10_EXPONENT) {
-    fraction = negexp ? 0.0 : HUGE_VAL;
-  } else {
-    if (exp >= 256) { /* in two steps: results can be subnormal */
-      if (negexp) fraction /= powers_of_10[8];
-      else fraction *= powers_of_10[8];
-      exp -= 256;
+  if (len == 0) return neg ? -0.0 : 0.0;
+
+  if (mantsz <= 15 && exp >= -22 && exp <= 22) { /* both are exact */
+    double exponent = 1.0;
+    fraction = (double)w[0];
+    if (len > 1) fraction += (double)w[1] * 4294967296.0;
+    for (c = exp < 0 ? -exp : exp, i = 0; c != 0; c >>= 1, ++i) {
+      if (c & 1) exponent *= powers_of_10[i];
     }
-    exponent = 1.0;
-    for (pd = &powers_of_10[0]; exp != 0; exp >>= 1, ++pd) {
-      if (exp & 1) exponent *= *pd;
-    }
-    if (negexp) fraction /= exponent;
+    if (exp < 0) fraction /= exponent;
     else fraction *= exponent;
+  } else if (mantsz + exp > 310) {
+    fraction = HUGE_VAL;
+  } else if (mantsz + exp < -330) {
+    fraction = 0.0;
+  } else {
+    fraction = strtod_big(&w[0], len, exp, rest);
   }
   if (fraction == 0.0 || fraction == HUGE_VAL) errno = ERANGE;
   return neg ? -fraction : fraction;
-- 
2.43.0


From 8b6e747255a464a5cfd988e17edf203c7c5c1c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 81/97] fix: repeated type names and addresses of dereferenced
 non-pointers were accepted

---
 c.c | 10 +++++++++-
 p.c |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 843078b..a2da73d 100644
--- a/c.c
+++ b/c.c
@@ -3309,6 +3309,13 @@ static node_t *compile_addrof(node_t *prn, node_t *pan)
   return pan;
 } 
 
+/* x is written as a variable, x[y], x.y, or *x: *&x is x even if x itself can't be addressed */
+static bool node_is_place(node_t *pn)
+{
+  return pn->nt == NT_IDENTIFIER || pn->nt == NT_SUBSCRIPT ||
+    (pn->nt == NT_POSTFIX && pn->op == TT_DOT) || (pn->nt == NT_PREFIX && pn->op == TT_STAR);
+} 
+
 /* compile x[y] */
 static node_t *compile_subscript(node_t *prn, node_t *pana, node_t *pani)
 {
@@ -3912,12 +3919,13 @@ static node_t *expr_compile(node_t *pn, buf_t *prib, const node_t *ret)
         case TT_AND: {
           if (pn0->nt == NT_PREFIX && pn0->op == TT_STAR) {
             pcn = expr_compile(ndref(pn0, 0), prib, NULL);
+            if (acode_type(pcn)->ts != TS_PTR) neprintf(pn0, "cannot dereference non-pointer expression");
           } else {
             pcn = compile_addrof(pn, expr_compile(pn0, prib, NULL));
           }
         } break;
         case TT_STAR: {
-          if (pn0->nt == NT_PREFIX && pn0->op == TT_AND) {
+          if (pn0->nt == NT_PREFIX && pn0->op == TT_AND && node_is_place(ndref(pn0, 0))) {
             pcn = expr_compile(ndref(pn0, 0), prib, NULL);
           } else {
             pcn = compile_ataddr(pn, expr_compile(pn0, prib, NULL));
diff --git a/p.c b/p.c
index 3414903..10ddc8e 100644
--- a/p.c
+++ b/p.c
@@ -3492,7 +3492,7 @@ static void parse_base_type(pws_t *pw, node_t *pn)
       case TT_SIMD_KW:     ++si; break;
       case TT_STRUCT_KW:   ++st; break;
       case TT_UNION_KW:    ++un; break;
-      case TT_TYPE_NAME:   ty = 1; tn = intern(pw->tokstr); break;
+      case TT_TYPE_NAME:   ++ty; tn = intern(pw->tokstr); break;
       case TT_CONST_KW:    /* ignored */ break;  
       case TT_VOLATILE_KW: /* ignored */ break;
       case TT_RESTRICT_KW: /* ignored */ break;
-- 
2.43.0


From 9cdd99881e2325ad1b8130b5883f65284bd38ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 82/97] fix: failed operations on streams of the other
 direction moved the position

---
 lib/src/stdio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 228853a..e23889c 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -150,7 +150,7 @@ int _fillbuf(FILE *fp)
   if (fp->base == NULL) addbuf(fp);
   if (!(fp->flags & _IOREAD)) {
     if (fp->flags & _IORW) fp->flags |= _IOREAD;
-    else return EOF;
+    else { fp->cnt = 0; return EOF; } /* write-only */
   }
   /* if this device is a terminal (line-buffered) or unbuffered, then
    * flush buffers of all line-buffered devices currently writing */
@@ -230,7 +230,7 @@ static int wrtchk(FILE *fp)
 int _flushbuf(int c, FILE *fp)
 {
   unsigned char c1;
-  if (wrtchk(fp) != 0) return EOF;
+  if (wrtchk(fp) != 0) { fp->cnt = 0; return EOF; }
   c = (unsigned char)c; /* as written */
   do {
     /* check for linebuffered with write perm, but no EOF */
-- 
2.43.0


From 81db6a61d8e13ff22df3089efe30daa2bc5dfb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 83/97] fix: overflowing escape at the end of a string literal
 was dropped silently

Also hex escapes above 0xFF are accepted where they fit (wide literals).
---
 l.c |  2 +-
 p.c | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/l.c b/l.c
index f92bf47..b6001a0 100644
--- a/l.c
+++ b/l.c
@@ -210,7 +210,7 @@ unsigned long strtocc32(const char *s, char** ep, bool *rp)
           --s;
           buf[i] = 0; 
           l = strtol(buf, NULL, 16);
-          c = (int)l & 0xff;
+          c = (int)l & 0x7fffffff; /* callers check if it fits */
           if ((long)c != l) goto err; 
         } break;
         case 'u': {
diff --git a/p.c b/p.c
index 10ddc8e..6c012c5 100644
--- a/p.c
+++ b/p.c
@@ -2584,27 +2584,27 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
       dropt(pw);
     } break;
     case TT_STRING: {
-      char *ns = pw->tokstr; unsigned long ul; bool raw;
+      char *ns = pw->tokstr, *ps; unsigned long ul; bool raw;
       ndset(pn, NT_LITERAL, pw->id, startpos); 
-      while (*ns && (errno = 0, ul = strtou8cc32(ns, &ns, &raw), !errno && ul <= 0x10FFFFUL)) {
+      while (*(ps = ns) && (errno = 0, ul = strtou8cc32(ns, &ns, &raw), !errno && ul <= 0x10FFFFUL)) {
         if (raw && ul > 0xFFUL) reprintf(pw, startpos, "string literal char overflow");
         if (raw) cbputc((int)ul, &pn->data);
         else cbputlc(ul, &pn->data); /* in utf-8 */
       }
       cbputc(0, &pn->data); /* terminating zero char, C-style */
-      if (*ns) 
-        reprintf(pw, startpos+(int)(ns-pw->tokstr), "string literal char overflow");
+      if (*ps) 
+        reprintf(pw, startpos+(int)(ps-pw->tokstr), "string literal char overflow");
       pn->ts = TS_STRING;
       dropt(pw);
     } break;
     case TT_LSTRING: {
-      char *ns = pw->tokstr; unsigned long ul;
+      char *ns = pw->tokstr, *ps; unsigned long ul;
       ndset(pn, NT_LITERAL, pw->id, startpos); 
-      while (*ns && (errno = 0, ul = strtou8cc32(ns, &ns, NULL), !errno && ul <= 0x10FFFFUL)) {
+      while (*(ps = ns) && (errno = 0, ul = strtou8cc32(ns, &ns, NULL), !errno && ul <= 0x10FFFFUL)) {
         cbput4le((unsigned)ul, &pn->data); /* 4 bytes, in LE order */
       }
       cbput4le(0, &pn->data); /* terminating zero wchar, C-style */
-      if (*ns) reprintf(pw, startpos+(int)(ns-pw->tokstr), "long string literal char overflow");
+      if (*ps) reprintf(pw, startpos+(int)(ps-pw->tokstr), "long string literal char overflow");
       pn->ts = TS_LSTRING;
       dropt(pw);
     } break;
-- 
2.43.0


From 5495627bf4f2ab860ade66d4147c9397a4e41e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:21 +0000
Subject: [PATCH 84/97] fix: \u{...} escapes in object file strings were
 rejected

---
 w.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/w.c b/w.c
index 67429f8..729ec15 100644
--- a/w.c
+++ b/w.c
@@ -3100,7 +3100,7 @@ static unsigned long strtowatec(const char *s, char** ep)
         case '\\': l = 0x5C; break;
         case '\'': l = 0x27; break;
         case '\"': l = 0x22; break;
-        case 'x': {
+        case 'u': {
           int i = 0; 
           if (*s++ != '{') goto err;
           while (i < SBSIZE && (c = *s++) && isxdigit(c))
-- 
2.43.0


From 3ac3deda0ae9e878b372134f14b5ce80af06f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:21 +0000
Subject: [PATCH 85/97] fix: block comments in object files: stale buffer after
 a nested one, ;;) and ((; misread

---
 w.c | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/w.c b/w.c
index 729ec15..27782ab 100644
--- a/w.c
+++ b/w.c
@@ -2985,23 +2985,21 @@ static bool lexbc(sws_t *pw, cbuf_t *pcb)
   char *tbase = cbdata(&pw->chars);
   int *pcuri = &pw->curi;
   int endi = (int)cblen(&pw->chars);
-  int c;
-  while (true) {
-    readchar();
-    if (c == EOF) break;
+  int c, depth = 1;
+  readchar();
+  while (c != EOF) {
+    int pc = c;
     cbputc(c, pcb);
-    if (c == '(') {
-      readchar();
-      if (c == EOF) break;
+    readchar();
+    if (pc == '(' && c == ';') {
       cbputc(c, pcb);
-      if (c == ';') {
-        if (!lexbc(pw, pcb)) return false;
-      }      
-    } else if (c == ';') {
+      depth += 1;
       readchar();
-      if (c == EOF) break;
+    } else if (pc == ';' && c == ')') {
       cbputc(c, pcb);
-      if (c == ')') return true;
+      depth -= 1;
+      if (depth == 0) return true;
+      readchar();
     }
   }
   return false;
-- 
2.43.0


From ca3f86c8c0d46fadf91189e832654fc3eaf4973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 86/97] fix: the embedded library did not match the compiler
 (wasm_simd128.h could not be included) nor lib/

---
 l.c | 3807 +++++++++++++++++++++++++++++++----------------------------
 1 file changed, 1995 insertions(+), 1812 deletions(-)

diff --git a/l.c b/l.c
index b6001a0..c45ecd1 100644
--- a/l.c
+++ b/l.c
@@ -1789,85 +1789,89 @@ struct memdir {
 
 /* start of in-memory archive */
 
-/* lib/crt.args.wo (DEFLATEd, org. size 4765) */
-static unsigned char file_l_0[881] =
-  "\305\130\333\156\243\60\20\175\137\151\377\301\102\171\10\17\33\5\162\121\124\251\177\122\11\31\30\122\253\140\263\266\111"
-  "\333\375\372\5\14\31\300\64\70\152\126\53\125\25\36\316\234\271\333\46\353\102\244\125\16\144\225\110\375\363\7\41"
-  "\153\126\224\102\152\342\275\123\305\42\305\151\251\136\205\216\112\11\27\6\357\201\107\274\54\215\336\45\323\340\221\165"
-  "\126\361\204\254\346\221\117\75\216\254\113\52\151\101\330\56\364\335\236\45\250\52\327\355\302\367\335\234\242\362\254\242"
-  "\63\350\45\247\172\334\343\215\53\366\7\234\135\100\364\103\35\51\245\110\42\370\140\213\76\364\100\64\217\126\12\50"
-  "\204\374\154\33\342\251\173\136\303\207\261\154\326\236\117\102\203\75\347\42\246\271\301\106\165\140\27\204\266\313\32\271"
-  "\56\52\335\105\124\377\337\44\202\53\115\266\376\274\176\62\326\117\356\321\27\134\203\54\242\104\124\134\43\315\120\172"
-  "\17\233\52\127\110\122\57\276\322\335\207\373\160\116\135\323\344\55\212\251\2\144\101\231\347\67\74\16\64\257\100\313"
-  "\11\213\21\55\221\244\124\123\103\1\105\251\77\115\155\56\124\22\232\263\63\177\336\223\246\1\237\117\15\266\106\113"
-  "\310\66\250\221\252\303\312\274\40\215\160\123\126\72\252\21\104\144\231\2\375\334\147\153\254\100\214\13\206\76\60\364"
-  "\201\15\74\116\201\36\153\12\304\353\200\101\112\41\237\110\305\151\234\3\321\202\110\320\222\301\5\152\215\242\240\74"
-  "\375\225\63\16\244\216\244\52\200\153\365\302\137\266\133\17\115\214\272\240\351\176\205\111\33\112\75\337\116\104\20\236"
-  "\14\121\203\60\104\214\63\315\150\136\277\105\32\224\31\273\265\102\56\222\246\130\255\363\246\71\172\21\257\212\250\324"
-  "\122\215\245\355\364\307\125\66\226\66\70\133\312\147\100\300\323\31\102\333\116\134\256\306\202\154\52\140\301\124\20\116"
-  "\5\273\116\140\142\65\215\271\71\203\276\216\210\171\321\302\67\12\164\153\166\1\214\355\272\13\121\242\252\170\244\247"
-  "\54\75\27\353\331\14\30\367\246\251\375\55\12\70\164\317\331\220\363\214\21\335\362\114\202\256\44\67\317\220\253\216"
-  "\52\256\71\336\332\306\30\123\242\233\363\262\301\70\243\200\246\251\131\324\370\334\361\144\31\232\320\0\135\217\116\215"
-  "\34\17\207\335\141\140\210\247\16\151\212\145\304\262\57\143\103\174\56\150\172\335\66\372\211\273\301\17\277\377\1\177"
-  "\140\247\21\263\202\143\172\267\133\166\227\341\6\77\261\202\143\357\36\317\336\216\307\166\37\167\16\53\352\43\112\44"
-  "\24\121\145\7\176\43\342\263\356\25\254\211\130\60\71\206\162\153\302\147\43\121\66\55\360\164\301\60\276\260\153\150"
-  "\117\120\121\345\16\211\64\126\355\322\342\101\154\347\310\356\213\5\227\261\41\320\147\124\301\126\161\34\370\377\65\352"
-  "\30\302\3\206\324\275\122\355\301\165\303\161\245\205\4\313\336\202\363\326\346\216\7\306\375\161\315\263\45\337\75\131"
-  "\170\212\145\150\126\56\107\310\151\41\223\341\325\120\266\31\137\323\334\23\352\152\335\52\371\202\157\73\213\357\160\162"
-  "\363\12\65\302\357\273\31\270\120\4\307\373\316\152\374\72\66\320\124\212\22\53\61\167\171\137\154\123\313\343\307\67"
-  "\341\364\212\254\101\26\214\123\75\270\41\367\42\274\40\233\357\313\225\322\124\127\152\160\235\304\213\51\277\112\361\332"
-  "\24\134\157\110\242\44\253\320\272\326\331\237\174\167\234\146\230\145\373\233\341\176\103\301\362\55\326\326\137\266\340\266"
-  "\71\56\154\107\326\124\145\34\173\63\142\74\145\22\22\335\25\351\372\233\203\337\157\375\230\171\340\351\365\141\44\305"
-  "\122\141\123\165\305\106\113\313\277\103\314\264\132\375\367\27";
-
-/* lib/crt.argv.wo (DEFLATEd, org. size 4717) */
-static unsigned char file_l_1[876] =
-  "\304\127\321\156\243\72\20\175\277\322\375\7\13\361\20\36\66\12\44\251\242\110\375\223\112\310\300\100\255\32\233\265\115"
-  "\332\356\327\57\340\20\47\23\32\23\245\325\276\104\160\162\346\314\301\36\17\303\242\226\105\313\201\204\271\62\377\377"
-  "\107\310\202\325\215\124\206\4\357\124\263\124\13\332\350\127\151\322\106\301\201\301\173\34\220\240\54\322\167\305\14\4"
-  "\144\121\266\42\47\341\64\163\77\362\310\242\241\212\326\204\255\223\150\336\265\2\335\162\63\334\104\321\74\123\124\125"
-  "\72\255\300\370\114\215\274\357\117\256\331\37\230\145\301\261\277\335\110\243\144\236\302\7\363\172\30\211\27\351\121\26"
-  "\155\12\316\262\116\65\247\234\313\374\44\151\361\275\105\357\262\217\205\113\5\200\145\173\154\216\251\172\322\224\105\175"
-  "\106\152\250\245\372\34\112\176\177\274\136\300\207\115\140\357\203\210\44\226\133\161\231\121\156\271\51\125\325\301\121\207"
-  "\333\216\271\250\133\163\314\325\375\56\163\51\264\41\253\150\72\76\277\214\317\357\211\227\302\200\252\323\134\266\302\70"
-  "\231\163\364\36\65\335\204\116\244\273\371\52\166\223\154\222\251\160\103\363\267\64\243\32\234\212\303\202\250\327\231\41"
-  "\363\12\264\101\52\26\362\211\24\324\120\53\1\165\143\76\355\336\34\250\42\224\263\112\74\157\110\177\304\236\167\75"
-  "\267\143\53\50\227\56\242\320\353\320\376\101\172\160\331\264\46\355\30\104\226\245\6\363\74\256\326\145\0\261\26\254"
-  "\174\154\345\343\153\342\6\23\3\326\157\220\240\234\200\122\122\355\111\53\150\306\201\30\111\24\30\305\340\0\135\104"
-  "\135\123\121\374\342\114\0\241\252\152\153\20\106\277\210\227\325\52\100\51\306\52\350\353\136\343\52\260\150\20\135\57"
-  "\104\234\354\254\120\317\260\102\114\60\303\50\357\376\165\62\16\263\171\273\0\56\363\176\263\6\363\266\70\106\110\264"
-  "\165\332\30\245\57\321\241\277\145\155\171\215\116\220\263\46\274\4\112\14\260\30\3\11\6\326\107\300\32\266\325\265"
-  "\254\300\234\352\334\376\61\320\227\32\314\220\326\103\166\65\267\116\34\242\333\354\42\116\343\270\131\331\313\11\262\153"
-  "\60\70\377\312\1\2\216\327\345\271\146\205\237\150\332\231\2\323\52\141\257\201\353\243\124\326\151\274\15\273\213\44"
-  "\235\115\214\41\177\33\7\320\242\260\67\35\237\317\174\1\236\247\60\0\307\102\303\111\236\266\333\365\326\201\124\24"
-  "\63\226\51\123\51\53\75\317\326\363\271\244\305\351\354\217\307\346\206\76\374\376\1\375\30\55\43\132\225\361\254\375"
-  "\220\255\315\150\313\355\37\172\251\42\107\356\234\77\346\350\253\347\232\62\222\337\60\342\137\233\351\223\343\236\143\42"
-  "\141\251\340\124\112\147\366\101\24\130\305\231\360\350\373\116\306\77\74\23\356\21\36\257\346\63\240\156\371\355\322\146"
-  "\161\170\303\270\66\122\301\165\76\217\171\327\5\161\147\275\377\271\246\325\362\107\133\260\50\160\111\371\173\355\316\263"
-  "\222\311\230\10\215\73\233\320\273\240\367\147\307\133\356\361\266\276\322\333\356\274\256\120\104\362\270\315\170\216\104\374"
-  "\164\337\113\315\175\355\132\152\241\144\203\166\2\215\252\236\62\105\216\177\246\10\361\100\150\100\325\114\120\163\66\17"
-  "\216\220\33\7\355\247\125\250\15\65\255\76\233\273\334\4\47\34\172\232\57\342\160\164\52\33\22\46\123\363\17\372"
-  "\300\271\321\22\52\223\266\256\235\243\125\106\23\362\375\211\142\357\270\207\342\347\147\360\67\107\137\73\302\247\252\24"
-  "\256\66\123\46\12\246\40\37\77\352\117\337\276\221\173\207\45\241\353\67\343\305\5\152\267\12\25\225\335\354\31\247"
-  "\340\357\340\343\12\130\222\32\20\1\0";
-
-/* lib/crt.void.wo (DEFLATEd, org. size 1416) */
-static unsigned char file_l_2[450] =
-  "\224\122\327\222\244\60\14\174\276\364\17\52\152\3\274\120\7\227\323\267\120\36\143\130\327\72\225\55\157\372\372\63\30"
-  "\106\114\272\60\21\265\273\133\126\50\265\355\243\22\160\305\75\276\173\15\120\112\355\254\107\50\36\131\220\135\60\314"
-  "\205\73\213\235\363\342\101\212\307\246\200\302\171\313\73\361\44\261\200\162\210\206\303\325\171\352\367\75\21\112\307\74"
-  "\323\40\77\264\125\125\315\131\264\320\326\77\317\131\277\57\317\245\170\312\231\163\134\124\320\146\356\250\354\216\251\314"
-  "\355\230\37\71\121\347\60\61\113\35\161\266\207\62\375\326\334\232\200\320\124\247\172\153\120\170\335\161\33\15\222\315"
-  "\26\275\344\366\376\214\133\160\127\144\222\202\113\332\217\355\307\366\234\34\31\277\357\166\54\10\162\41\54\231\45\207"
-  "\177\260\271\23\314\35\271\144\350\157\46\75\103\106\155\175\40\371\34\46\351\3\363\300\224\34\315\257\217\20\344\213"
-  "\370\365\165\322\45\245\27\103\115\352\76\64\127\371\0\46\260\166\21\273\304\0\73\14\101\340\257\265\163\207\2\310"
-  "\327\311\366\115\266\157\16\210\64\256\151\315\2\135\157\213\236\273\145\323\176\315\106\23\43\33\111\43\121\62\225\116"
-  "\311\206\260\142\246\3\170\201\321\233\351\371\130\77\45\224\206\341\106\276\102\253\172\335\362\253\200\14\143\310\113\260"
-  "\234\50\313\247\151\15\146\213\356\22\172\17\127\153\357\224\265\16\256\332\45\312\3\256\107\201\247\213\233\31\233\325"
-  "\44\140\304\56\56\321\220\377\151\124\307\15\375\377\104\15\1\41\356\16\364\341\234\376\377\63\174\44\100\107\105\1"
-  "\353\173\12\224\145\375\176\271\326\321\347\343\271\321\65\12\61\65\73\103\11\120\235\64\275\364\202\343\62\244\152\132"
-  "\341\20\25\126\313\50\74\165\136\230\176\377\160\200\156\107\305\327\202\362\260\51\323\357\21\56\15\261\44\65\40\2"
-  "\0";
+/* lib/crt.args.wo (DEFLATEd, org. size 4907) */
+static unsigned char file_l_0[934] =
+  "\275\130\333\156\243\60\20\175\357\127\130\331\74\44\17\33\5\322\104\121\245\376\111\45\144\300\244\326\202\315\332\46"
+  "\275\174\375\32\3\306\330\346\246\106\373\22\301\350\314\231\213\147\306\103\166\5\115\253\34\201\155\302\304\23\0\73"
+  "\134\224\224\11\260\371\200\34\107\234\300\222\277\123\21\225\14\335\61\372\10\66\140\223\245\321\7\303\2\155\300\56"
+  "\253\110\2\266\176\344\113\207\3\273\22\62\130\0\174\12\367\313\236\31\342\125\56\324\313\176\277\310\47\310\156\74"
+  "\272\41\61\347\123\207\173\270\155\216\277\321\162\17\64\372\221\176\224\214\46\21\372\304\263\56\150\240\151\261\61\122"
+  "\240\202\262\57\125\13\57\355\363\16\175\66\206\233\367\315\36\204\12\172\313\151\14\363\6\32\311\250\356\75\122\275"
+  "\112\340\256\250\104\33\216\374\75\44\224\160\1\216\173\257\172\62\124\117\126\250\123\42\20\53\242\204\126\104\364\54"
+  "\246\164\75\131\16\271\313\125\13\127\120\361\162\333\123\310\227\61\325\347\360\71\364\150\13\230\374\211\142\310\221\101"
+  "\242\145\222\113\22\314\263\274\43\130\132\44\132\64\305\221\102\1\33\6\124\224\342\253\71\340\73\144\0\346\370\106"
+  "\136\237\101\135\302\257\127\11\5\165\255\146\207\136\41\345\347\255\222\203\132\166\50\53\21\111\0\240\131\306\221\170"
+  "\75\332\374\65\34\64\346\33\356\240\341\16\34\334\305\306\155\160\175\56\104\306\212\30\243\354\5\124\4\306\162\224"
+  "\11\12\30\22\14\243\73\222\32\105\1\111\372\73\307\4\1\31\105\125\40\42\370\33\171\73\36\67\226\205\366\224"
+  "\353\336\341\316\331\53\251\314\230\223\203\40\274\52\236\246\345\152\36\114\260\300\22\363\155\44\275\227\51\253\22\237"
+  "\323\244\76\44\345\171\133\22\255\210\124\105\124\12\306\207\122\65\70\342\52\33\112\153\234\53\45\36\20\42\251\207"
+  "\320\265\23\313\252\35\10\62\133\200\3\133\20\332\202\123\53\120\241\66\365\170\250\307\135\327\27\112\256\300\7\136"
+  "\213\343\126\64\6\355\113\364\24\152\1\257\142\123\211\333\112\13\354\146\43\120\125\357\226\345\243\176\47\250\171\314"
+  "\14\272\233\47\14\307\43\131\225\25\43\352\21\345\274\141\211\245\376\37\125\7\66\133\66\360\167\40\62\132\126\277"
+  "\303\64\125\317\22\234\57\274\176\14\172\201\120\133\214\226\201\313\371\174\72\367\106\110\72\227\226\230\105\70\233\14"
+  "\250\6\347\24\246\172\46\164\35\65\112\215\376\76\230\72\160\322\146\244\241\153\300\225\356\70\365\246\247\265\155\240"
+  "\353\345\245\121\74\73\121\170\274\356\106\201\35\351\105\13\30\52\242\312\11\166\64\312\233\150\321\156\241\117\333\62"
+  "\200\304\351\126\327\173\356\60\42\222\116\132\64\15\370\317\252\317\124\121\345\263\131\353\354\331\47\250\257\112\67\47"
+  "\343\245\350\361\264\77\164\355\252\241\60\250\206\371\356\375\377\175\73\352\371\332\256\133\174\52\362\212\31\165\227\13"
+  "\312\220\337\322\250\317\366\100\356\347\373\352\150\174\124\311\117\56\2\171\57\353\244\173\12\337\35\371\327\311\314\205"
+  "\235\205\341\116\166\331\256\114\340\22\273\123\327\220\351\323\311\246\72\137\227\170\323\343\303\237\171\27\314\253\33\143"
+  "\162\321\105\332\175\335\52\144\312\150\351\311\172\277\72\317\24\241\355\351\143\153\314\132\117\353\165\26\23\50\214\355"
+  "\124\213\272\345\264\371\56\334\312\33\114\124\334\130\345\364\116\150\155\230\31\371\25\30\260\166\247\11\272\375\205\226"
+  "\140\33\372\67\55\363\63\155\361\115\64\114\263\271\241\257\265\21\314\156\223\216\362\12\366\351\171\67\75\147\214\376"
+  "\311\210\256\307\10\223\24\63\224\164\337\356\372\237\202\175\73\303\165\242\273\121\242\346\113\57\323\247\62\22\106\375"
+  "\215\273\160\361\235\143\60\367\154\131\37\136\326\221\154\133\34\267\1\307\202\74\170\346\150\123\313\363\215\255\377\35"
+  "\261\233\150\377\364\17";
+
+/* lib/crt.argv.wo (DEFLATEd, org. size 4867) */
+static unsigned char file_l_1[926] =
+  "\275\130\333\156\243\60\20\175\357\127\130\331\74\44\17\33\5\222\124\125\245\376\111\45\144\300\244\326\202\315\332\46"
+  "\275\174\375\372\2\306\230\173\33\355\113\4\107\343\63\307\343\231\361\220\135\101\323\52\107\140\233\60\361\0\300\16"
+  "\27\45\145\2\154\336\41\307\21\47\260\344\157\124\104\45\103\67\214\336\203\15\330\144\151\364\316\260\100\33\260\313"
+  "\52\222\200\355\260\345\163\143\7\166\45\144\260\0\370\24\356\227\75\63\304\253\134\350\227\375\176\221\46\310\256\74"
+  "\272\42\61\247\251\261\273\273\157\216\277\320\162\5\326\372\236\72\112\106\223\10\175\340\131\11\326\320\365\330\165\302"
+  "\105\232\343\130\222\46\60\317\151\142\31\15\376\154\320\157\210\267\274\31\103\310\147\125\330\2\111\305\240\244\142\100"
+  "\122\117\106\201\12\312\76\165\252\77\327\317\73\364\141\370\315\373\146\17\102\155\172\315\151\14\163\143\32\311\103\273"
+  "\265\226\372\125\32\356\212\112\324\236\344\357\41\241\204\13\160\334\17\56\117\272\313\223\25\313\51\21\210\25\121\102"
+  "\53\42\132\26\27\135\117\226\103\336\347\122\340\12\52\136\156\133\12\371\62\266\364\34\236\303\201\325\2\46\177\242"
+  "\30\162\344\220\130\114\162\111\202\171\226\67\4\113\217\304\102\123\34\51\24\320\60\240\242\24\237\346\200\157\220\1"
+  "\230\343\53\171\71\3\125\241\57\117\322\24\250\64\312\16\355\202\224\237\266\32\7\12\73\224\225\210\244\1\240\131"
+  "\306\221\170\71\372\374\312\34\30\367\206\73\60\334\101\317\356\354\333\155\260\72\27\42\367\212\30\243\354\31\124\4"
+  "\306\262\123\13\12\30\22\14\243\33\222\53\212\2\222\364\167\216\11\2\162\27\125\201\210\340\257\344\365\170\334\170"
+  "\36\352\123\126\125\303\173\147\257\121\31\261\136\14\202\360\111\363\230\142\123\74\230\140\201\245\315\227\23\364\26\323"
+  "\136\245\275\54\106\165\110\132\171\235\22\65\104\252\42\52\5\343\135\124\367\305\270\312\6\320\276\161\54\123\257\3"
+  "\144\76\200\3\37\10\175\340\124\3\132\257\111\252\203\152\311\115\162\153\134\33\37\270\202\343\32\32\63\155\363\354"
+  "\24\132\200\127\261\273\210\373\213\26\370\315\106\114\165\322\172\236\217\366\235\40\363\230\71\164\327\201\155\364\24\311"
+  "\324\252\30\321\217\50\347\206\45\226\353\377\350\303\364\331\262\216\336\16\344\324\235\175\207\151\252\237\325\5\262\360"
+  "\212\164\350\205\274\37\114\106\171\16\36\57\227\323\245\165\102\322\271\260\304\54\302\331\344\206\224\161\116\141\152\13"
+  "\273\51\213\121\152\364\367\316\324\101\57\154\116\30\232\52\272\277\234\163\107\216\71\251\316\45\353\113\151\112\367\373"
+  "\122\106\66\63\240\40\31\127\260\44\32\375\162\350\210\357\270\122\343\110\255\273\25\215\110\72\310\140\235\117\123\317"
+  "\214\245\377\71\327\107\225\257\315\324\366\275\250\362\251\254\225\155\171\124\56\27\224\241\141\117\243\232\375\46\326\366"
+  "\304\325\273\31\242\112\176\322\74\111\72\231\66\375\66\371\64\31\271\260\361\320\35\106\316\333\225\1\134\342\167\252"
+  "\165\273\232\116\76\325\345\151\211\232\326\76\374\231\272\140\176\171\360\270\356\362\151\276\132\265\145\312\150\71\20\365"
+  "\166\146\234\111\102\137\351\175\163\314\233\313\324\34\207\11\24\316\130\146\241\146\52\63\137\107\262\303\101\121\161\147"
+  "\374\261\163\24\361\346\52\362\53\160\314\352\71\40\150\356\174\132\202\155\70\74\235\270\337\47\243\45\177\25\121\345"
+  "\366\345\156\230\335\321\164\255\217\140\166\2\353\55\136\301\76\335\357\246\373\214\123\77\31\261\371\30\141\222\142\206"
+  "\222\346\233\334\176\275\356\355\25\124\7\272\151\45\272\277\264\230\75\225\221\155\250\217\273\205\303\342\34\203\73\233"
+  "\312\374\30\144\35\211\266\307\161\355\160\54\210\303\100\37\65\271\74\137\330\366\137\17\277\210\366\17\377\0";
+
+/* lib/crt.void.wo (DEFLATEd, org. size 1692) */
+static unsigned char file_l_2[498] =
+  "\225\125\313\162\243\60\20\274\347\53\124\204\3\134\250\100\174\110\245\312\337\102\311\60\20\125\204\104\111\43\47\233"
+  "\257\137\75\260\120\260\131\257\117\326\264\273\133\322\364\0\305\44\173\303\201\344\235\302\47\102\12\66\315\122\41\311"
+  "\276\250\146\255\26\164\326\37\22\333\131\301\231\301\127\235\221\154\126\262\153\341\233\141\106\212\301\210\216\344\267\251"
+  "\357\221\110\212\231\52\72\21\366\332\224\145\351\66\231\140\222\352\217\337\363\175\131\27\360\35\66\16\165\126\222\306"
+  "\123\107\56\117\224\7\152\113\325\330\255\114\137\132\142\61\31\364\346\366\364\257\115\325\111\241\221\324\345\225\134\12"
+  "\4\65\265\235\64\2\127\227\24\335\63\173\331\65\343\124\137\173\71\360\1\53\75\347\253\205\55\366\244\207\346\320"
+  "\334\120\43\355\76\333\23\325\220\230\104\314\172\131\203\373\56\37\100\347\215\111\204\376\345\321\123\244\153\70\347\337"
+  "\341\234\255\362\114\25\241\234\215\342\170\40\232\375\300\361\315\312\254\120\301\120\255\342\136\327\271\307\211\303\252\331"
+  "\140\153\11\104\16\203\6\74\276\154\367\162\164\22\216\22\274\353\340\135\157\170\113\36\156\114\365\125\112\36\275\165"
+  "\302\272\171\363\76\141\272\235\17\23\14\231\345\374\44\355\131\261\254\364\107\127\200\106\11\273\334\210\335\146\114\120"
+  "\114\264\21\132\244\313\3\222\333\334\320\350\20\174\370\203\313\316\105\64\210\145\32\142\375\134\47\264\223\205\77\111"
+  "\276\364\220\113\71\223\274\11\105\10\271\32\1\257\37\2\117\110\106\63\326\43\266\46\24\303\162\265\64\254\264\177"
+  "\217\356\121\307\132\233\123\52\326\273\342\7\334\17\261\236\14\217\153\332\367\161\315\45\355\343\130\135\142\137\272\146"
+  "\73\133\41\200\353\256\107\154\315\133\46\172\246\240\273\274\304\112\67\271\332\160\14\301\235\124\154\64\210\376\362\233"
+  "\142\61\225\235\153\270\167\305\156\16\2\322\24\356\71\204\33\370\106\272\371\270\351\272\323\355\215\307\370\313\343\77"
+  "\372\160\271\174\42\17\263\34\15\356\177\46\266\17\121\371\364\27";
 
 /* lib/crt.wo (DEFLATEd, org. size 264) */
 static unsigned char file_l_3[121] =
@@ -1876,95 +1880,101 @@ static unsigned char file_l_3[121] =
   "\55\303\355\333\341\276\151\16\366\54\301\353\351\152\271\257\366\161\352\43\310\170\175\275\134\57\7\157\336\271\353\347"
   "\266\347\262\360\106\271\315\232\203\3\347\17\114\22\272\370\211\162\35\175\206\354\155\7";
 
-/* lib/ctype.wo (DEFLATEd, org. size 4203) */
-static unsigned char file_l_4[489] =
-  "\314\127\127\162\34\41\20\375\166\272\3\316\312\141\363\356\145\124\23\320\210\62\111\4\247\323\33\57\135\325\26\116\150"
-  "\252\107\265\177\314\243\323\343\65\141\216\224\351\243\344\354\135\27\276\131\376\352\71\143\107\102\131\343\2\173\323\271"
-  "\360\206\275\361\366\335\33\166\64\110\323\66\62\131\271\260\113\10\73\122\61\60\61\237\35\37\37\377\301\107\161\145"
-  "\334\267\344\226\7\331\15\306\127\340\161\33\165\7\131\167\302\67\122\107\305\216\370\327\34\6\200\67\173\323\144\154"
-  "\33\327\250\144\275\117\311\216\34\367\121\206\374\221\55\244\351\32\171\61\360\220\214\62\222\276\345\257\361\355\135\223"
-  "\47\304\355\203\0\31\114\243\213\316\150\37\330\165\6\270\364\274\56\164\57\6\21\300\111\367\171\340\170\210\116\377"
-  "\34\43\331\242\30\44\13\0\35\131\151\276\160\67\15\331\150\55\167\217\42\333\351\340\44\222\5\200\216\254\165\102"
-  "\7\344\305\357\277\127\124\225\105\303\252\0\30\127\125\271\250\213\15\42\76\266\345\364\26\1\311\157\142\115\265\203"
-  "\153\354\35\126\13\300\44\153\130\64\114\235\277\267\115\307\113\15\240\257\112\372\127\265\335\203\255\214\314\1\240\321"
-  "\151\273\106\144\340\67\276\172\1\212\75\64\233\75\120\324\23\160\107\125\220\73\0\64\334\347\63\42\356\253\211\270"
-  "\247\257\200\334\1\70\210\216\307\373\152\104\307\37\326\26\303\310\270\324\0\320\267\31\277\247\270\222\12\343\253\42"
-  "\76\322\246\115\264\175\242\74\327\363\62\121\215\216\170\65\243\216\0\320\350\270\132\222\34\27\333\253\151\116\213\257"
-  "\305\165\16\10\341\171\261\17\107\45\67\375\25\164\65\342\12\242\356\142\372\166\131\217\154\227\372\207\270\357\204\300"
-  "\266\1\200\146\313\234\137\317\66\210\65\272\177\364\33\265\225\215\376\204\325\1\100\364\366\231\366\134\236\317\106\36"
-  "\143\301\24\307\30\0\117\361\163\124\241\351\174\136\110\372\317\45\251\47\135\74\163\1\240\43\35\255\35\105\272\324"
-  "\322\270\261\224\177\14\210\0";
-
-/* lib/dirent.wo (DEFLATEd, org. size 21870) */
-static unsigned char file_l_5[2161] =
-  "\244\224\335\156\332\60\24\307\357\47\355\35\254\50\27\160\123\101\313\230\26\251\317\202\334\370\30\54\71\266\173\354\254"
-  "\353\333\317\362\241\46\73\115\24\165\334\300\341\227\363\377\210\43\262\31\274\32\55\210\126\31\4\227\276\177\23\142"
-  "\143\206\340\61\211\246\307\324\210\46\206\266\21\233\263\365\57\322\212\66\263\56\23\261\31\306\44\314\323\343\166\273"
-  "\235\321\14\60\170\174\317\62\32\110\166\235\167\125\261\236\222\3\330\366\233\214\346\24\235\14\361\342\323\51\40\374"
-  "\66\360\266\317\6\132\235\20\244\122\6\263\217\36\135\57\332\371\335\356\266\51\66\101\242\34\112\314\352\174\74\60"
-  "\216\20\107\73\173\10\61\241\161\147\72\207\76\274\327\102\304\73\242\313\201\137\14\311\103\357\255\345\51\127\174\207"
-  "\65\365\277\40\167\46\172\157\177\100\164\276\251\337\365\331\227\337\135\371\44\31\253\246\254\171\311\62\215\0\265\30"
-  "\321\56\63\230\306\57\151\7\151\255\357\271\232\350\152\175\156\206\60\353\106\230\331\175\321\372\65\172\114\334\270\100"
-  "\146\273\72\263\4\335\273\144\163\200\17\340\344\55\241\340\216\340\235\217\267\106\150\343\324\11\301\6\231\56\54\150"
-  "\172\351\177\42\106\147\142\122\71\243\267\76\102\65\47\334\25\270\146\105\12\172\367\165\132\371\0\256\274\27\340\17"
-  "\105\124\324\224\175\361\341\327\152\365\331\123\134\127\254\357\245\55\256\241\360\112\0\321\343\277\310\354\133\6\36\71"
-  "\170\342\340\300\301\17\16\216\34\374\154\247\15\363\370\320\173\27\223\70\354\210\344\55\313\376\10\164\241\30\74\44"
-  "\0\272\37\256\337\335\0\274\136\147\275\260\204\220\106\164\64\203\123\123\377\63\244\171\377\375\361\106\244\122\254\123"
-  "\71\276\317\267\364\353\270\174\123\165\71\46\217\40\274\326\21\322\363\116\110\153\316\356\371\260\122\312\172\251\76\64"
-  "\373\343\124\264\176\50\313\316\177\333\271\332\335\106\221\40\370\52\53\205\277\27\305\100\200\74\215\5\11\326\242\70"
-  "\261\205\155\345\156\237\376\160\270\243\324\56\146\313\223\61\34\253\133\51\77\342\206\231\256\351\351\257\231\156\373\214"
-  "\323\370\260\57\12\160\363\22\4\237\5\310\113\312\322\373\372\317\143\307\174\335\75\133\237\256\332\303\270\260\173\210"
-  "\65\353\10\115\33\376\151\102\227\34\262\307\307\344\21\304\262\227\215\143\113\336\153\271\45\132\132\274\145\356\271\364"
-  "\273\136\213\352\343\344\175\207\312\304\312\20\243\43\253\212\243\21\345\12\260\35\300\52\204\75\47\321\225\252\7\352"
-  "\50\232\342\72\325\174\20\160\122\206\163\23\61\304\251\140\374\350\366\153\241\274\223\130\360\316\46\132\164\242\234\171"
-  "\116\214\127\1\214\241\372\243\261\376\63\77\60\301\36\64\33\355\373\111\105\274\107\112\340\341\126\106\227\161\200\271"
-  "\115\356\235\170\256\44\236\312\323\141\131\142\157\376\111\271\312\43\266\146\40\215\354\314\220\212\201\364\136\276\325\327"
-  "\356\327\360\231\337\264\213\244\55\31\130\221\353\316\127\253\374\41\173\200\124\154\156\115\232\277\241\200\365\307\52\44"
-  "\263\142\251\3\11\145\273\204\246\27\204\157\126\303\254\154\52\336\323\137\332\335\336\5\24\234\257\125\21\122\20\250"
-  "\207\237\56\100\215\6\122\265\217\54\141\363\57\1\161\270\307\75\334\127\220\25\167\163\210\227\307\123\335\303\251\262"
-  "\301\236\306\151\356\237\200\135\32\153\350\170\27\332\112\7\264\261\343\300\127\325\66\317\274\123\31\240\45\271\222\174"
-  "\264\111\0\75\113\101\70\152\10\211\334\225\37\114\255\344\237\30\241\342\237\37\145\144\12\213\101\2\21\307\114\357"
-  "\210\51\202\7\205\147\267\73\221\150\317\147\10\3\266\47\174\55\272\127\247\315\246\156\327\333\172\163\264\156\241\343"
-  "\324\376\265\76\64\77\152\113\177\257\77\34\324\176\52\113\37\274\24\215\277\313\134\63\334\345\366\111\277\154\171\345"
-  "\340\166\154\363\137\112\130\102\161\111\170\42\140\17\104\131\21\45\41\112\114\224\164\122\137\236\304\223\371\362\252\43"
-  "\276\176\213\160\102\333\355\277\105\53\127\306\136\265\353\146\323\275\155\7\47\366\343\331\54\326\147\65\156\352\203\207"
-  "\343\210\13\316\136\365\40\270\33\222\20\242\213\61\267\237\235\235\266\307\341\44\270\231\34\172\112\320\211\377\44\141"
-  "\253\152\151\217\360\230\343\227\377\261\41\140\3\161\230\343\115\202\343\66\205\17\223\10\362\40\136\221\6\17\34\144"
-  "\70\160\317\1\163\353\44\70\374\252\141\105\133\7\232\72\67\142\10\226\113\354\364\61\272\152\341\33\130\275\310\50"
-  "\45\143\155\235\302\320\146\344\2\235\101\350\65\136\62\65\36\367\221\167\13\243\302\100\143\46\322\41\20\336\116\133"
-  "\5\273\5\312\176\63\373\177\14\25\313\12\365\30\140\16\263\267\245\60\122\171\144\62\332\314\202\375\353\55\153\20"
-  "\372\266\24\113\233\347\272\60\21\352\50\1\350\140\263\224\300\42\104\201\323\55\153\212\277\353\347\370\365\275\325\265"
-  "\205\233\305\4\62\116\320\26\20\23\324\115\242\63\212\76\5\207\171\262\121\172\52\334\254\202\56\143\303\135\146\242"
-  "\103\146\242\103\316\373\206\161\113\222\206\6\250\303\16\6\102\143\362\221\300\143\250\220\230\347\255\264\300\355\35\172"
-  "\356\362\105\7\37\131\254\241\104\204\26\67\103\341\46\23\372\356\21\200\174\365\201\300\240\221\215\212\113\156\73\313"
-  "\122\63\175\201\52\242\157\225\21\334\75\252\236\105\244\175\100\261\76\121\250\274\54\217\25\6\40\136\220\0\237\30"
-  "\40\6\41\250\6\307\120\76\3\6\0\364\303\42\266\340\111\26\75\131\270\67\251\170\257\36\74\24\23\212\67\113"
-  "\371\173\65\172\50\235\371\124\312\272\21\354\172\71\305\325\262\222\373\230\104\67\22\172\34\5\34\143\75\244\11\116"
-  "\142\47\203\373\245\302\173\254\2\44\102\203\204\307\377\305\133\232\156\337\132\204\264\56\346\203\100\240\256\177\245\301"
-  "\6\126\234\104\300\266\2\66\363\1\250\303\262\67\121\152\372\150\336\155\261\151\40\271\313\115\75\335\135\165\111\134"
-  "\145\230\333\4\236\171\133\255\24\234\133\271\317\331\274\147\270\363\324\172\165\250\353\127\243\125\75\301\255\123\3\245"
-  "\103\272\44\45\303\64\147\144\13\323\263\337\172\166\254\267\133\243\147\75\41\240\254\57\3\55\120\177\264\345\176\335"
-  "\144\327\331\303\166\175\154\117\365\5\252\332\201\211\56\105\324\364\317\345\145\347\131\107\362\351\74\263\204\363\271\151"
-  "\333\34\216\226\332\55\302\22\236\167\157\335\177\176\15\153\150\111\260\115\6\170\60\372\362\276\335\75\327\207\103\375"
-  "\62\326\72\160\30\45\202\1\75\71\321\104\317\273\335\153\123\367\337\226\12\152\235\320\115\22\0\302\243\261\36\361"
-  "\365\213\145\265\106\374\162\335\10\60\371\263\126\173\334\244\265\365\346\336\145\331\340\205\171\105\33\27\121\147\157\311"
-  "\304\133\341\307\123\147\353\67\0\32\353\27\137\167\241\101\23\267\166\336\136\32\270\147\257\112\332\156\222\4\264\207"
-  "\334\236\154\231\100\326\242\230\210\170\113\342\5\252\301\177\136\375\42\330\212\267\341\226\75\162\173\63\107\357\300\347"
-  "\354\65\362\157\277\304\20\336\337\311\272\212\302\101\162\7\0\13\316\277\335\107\346\343\214\104\113\361\77\155\355\211"
-  "\323\351\132\173\170\156\355\4\265\244\364\125\247\166\114\363\164\340\350\156\26\326\131\177\116\142\62\217\342\42\106\6"
-  "\265\265\150\335\237\254\167\5\6\316\261\213\347\241\245\13\237\60\215\205\13\303\103\71\150\76\313\300\104\241\55\36"
-  "\161\32\334\342\201\75\115\42\135\316\327\110\374\313\371\52\331\103\45\64\104\77\335\325\324\330\243\150\265\312\146\56"
-  "\247\46\236\345\324\142\321\345\324\70\135\116\71\25\130\202\277\70\253\204\353\121\237\247\364\125\252\61\316\254\220\351"
-  "\272\171\77\277\366\174\164\376\150\204\63\276\161\342\315\17\341\371\50\307\20\3\130\365\51\342\62\114\36\123\157\17"
-  "\265\340\45\102\63\102\216\70\244\60\3\57\306\51\61\366\210\312\256\263\225\207\350\177\372\155\326\252\205\247\34\213"
-  "\300\14\202\105\205\301\102\134\102\303\370\241\10\36\352\310\50\266\101\367\41\61\54\175\132\206\162\172\356\6\144\110"
-  "\231\263\72\151\352\304\111\346\301\160\66\354\266\376\67\25\141\262\4\306\43\123\73\377\122\56\157\220\103\111\2\56"
-  "\261\244\121\12\343\241\267\373\133\176\13\24\277\350\164\361\72\152\7\272\333\16\110\264\255\311\25\204\265\325\124\245"
-  "\275\256\313\43\255\24\15\116\242\243\135\241\215\102\155\342\41\234\374\17\223\334\346\221\1\126\10\31\32\376\36\176"
-  "\121\334\14\11\127\66\212\253\361\164\351\15\14\51\203\355\134\174\310\305\372\31\143\270\335\315\167\171\54\352\173\124"
-  "\335\103\155\317\253\220\267\151\266\307\272\25\265\274\337\77\70\260\374\37\33\340\111\27\362\153\3\42\50\340\101\257"
-  "\212\72\346\120\245\373\326\46\126\156\367\337\313\163\100\203\221\15\244\113\63\53\255\351\124\327\164\26\224\102\144\236"
-  "\47\335\52\160\72\10\326\376\354\346\210\244\272\277\277\1";
+/* lib/ctype.wo (DEFLATEd, org. size 4126) */
+static unsigned char file_l_4[513] =
+  "\315\127\333\122\303\40\20\175\367\53\230\214\17\351\203\116\232\250\265\376\214\103\123\214\214\4\220\313\130\375\172\351"
+  "\46\215\44\265\65\66\133\307\247\206\323\335\205\163\330\135\40\255\325\332\13\106\56\113\367\256\331\5\41\51\257\265"
+  "\62\216\44\245\161\11\111\254\276\114\110\132\11\265\242\42\30\31\367\20\20\222\326\336\21\136\344\263\331\154\337\245"
+  "\146\265\62\357\301\253\371\150\274\332\357\254\161\170\362\262\154\247\174\340\226\12\351\153\222\262\115\23\245\5\222\255"
+  "\145\260\325\324\320\72\30\303\174\44\65\314\172\321\114\116\300\100\250\222\212\353\212\271\140\3\100\30\212\70\270\176"
+  "\246\200\363\247\236\167\203\25\371\165\251\244\165\144\16\143\46\54\33\23\165\315\53\356\6\21\262\156\54\233\30\114"
+  "\256\341\327\60\347\215\14\237\337\162\17\313\353\163\17\0\22\167\241\336\230\101\347\356\265\336\105\235\306\275\224\316"
+  "\210\230\73\0\47\163\377\156\65\25\173\264\7\5\70\22\241\310\73\100\270\66\104\247\317\160\242\35\327\151\42\107"
+  "\226\371\242\103\330\353\150\71\41\47\143\71\1\100\220\363\346\276\3\254\137\15\376\134\176\11\305\36\375\217\213\254"
+  "\14\325\317\361\42\1\100\312\167\155\270\164\343\267\273\357\154\65\55\131\244\373\307\270\115\77\106\26\352\57\46\13"
+  "\0\302\216\54\27\223\63\174\236\347\361\316\331\351\154\101\375\230\55\0\10\154\243\142\74\235\355\35\66\333\60\352"
+  "\263\335\2\377\41\221\341\364\374\175\42\377\217\222\201\220\261\254\0\340\46\121\333\123\261\332\365\162\172\166\26\47"
+  "\44\347\30\65\341\250\216\325\4\0\101\315\273\333\311\244\227\31\162\105\156\366\16\300\315\264\23\360\340\225\17\53"
+  "\161\20\272\170\226\117\110\35\54\42\10\331\260\310\316\124\2\324\226\234\367\56\330\133\0\241\4\256\346\371\327\275"
+  "\210\356\24\215\372\340\261\125\255\4\225\57\361\252\0\300\270\31\234\253\313\355\367\317\237\325\167\152\320\200\132\340"
+  "\117\236\67\307\266\256\50\366\166\356\260\6\143\170\16\156\172\55\200\304\63\172\160\235\374\212\121\346\367\54\147\27"
+  "\237";
+
+/* lib/dirent.wo (DEFLATEd, org. size 20924) */
+static unsigned char file_l_5[2305] =
+  "\355\34\333\166\233\70\360\175\277\202\223\360\220\74\64\307\330\16\166\162\116\277\305\7\333\42\341\24\3\25\170\323"
+  "\366\353\227\213\204\165\31\135\301\156\272\273\57\55\36\44\315\110\163\325\314\220\207\123\171\74\347\50\10\217\31\106"
+  "\105\363\127\20\74\144\247\252\304\115\160\167\300\315\135\160\127\127\341\135\360\360\226\227\373\44\17\302\26\366\332\102"
+  "\202\207\323\271\11\262\325\362\361\361\121\236\162\102\247\22\377\154\147\15\17\303\54\362\274\200\46\300\70\372\345\331"
+  "\301\37\111\235\355\352\42\251\352\367\262\331\125\30\375\235\241\217\250\235\237\36\167\30\45\307\166\13\355\62\351\271"
+  "\70\4\41\74\366\365\62\62\170\250\22\234\234\172\54\306\347\170\55\300\61\252\317\71\164\2\165\203\263\342\155\70"
+  "\204\103\365\163\244\147\200\277\16\120\73\334\146\34\355\303\241\314\163\21\11\1\117\131\271\243\363\35\103\324\277\343"
+  "\211\324\43\214\213\362\156\374\177\144\173\377\373\265\377\127\146\175\335\34\363\154\337\261\32\43\304\220\325\101\137\73"
+  "\30\213\134\61\365\224\344\171\171\20\47\17\120\353\363\41\153\265\102\4\55\106\300\136\47\117\126\376\136\227\235\116"
+  "\360\353\366\100\47\211\225\20\244\207\242\151\45\345\256\254\120\221\134\20\364\340\327\1\70\221\261\24\103\232\25\235"
+  "\226\345\125\322\274\13\170\330\127\36\30\316\105\326\36\110\213\342\220\227\365\105\14\6\360\153\17\64\254\64\114\30"
+  "\154\135\153\14\272\175\367\266\0\375\40\173\240\240\273\156\170\100\127\13\323\243\274\142\60\214\150\371\335\211\157\73"
+  "\247\42\143\10\244\25\345\22\363\240\54\12\5\300\122\4\254\104\300\132\4\74\213\200\130\4\154\102\206\300\366\351"
+  "\351\120\26\165\23\254\27\75\240\35\223\13\342\337\303\373\331\117\15\32\234\101\45\114\136\214\277\321\367\341\61\5"
+  "\107\140\324\234\161\321\77\266\7\311\54\374\206\32\160\341\50\36\1\255\141\26\51\151\117\114\332\305\113\254\335\107"
+  "\67\264\156\112\214\202\62\115\153\324\174\135\4\111\236\275\25\137\327\132\152\362\62\71\322\31\121\314\115\61\237\2"
+  "\264\50\107\137\147\243\74\316\53\75\116\247\171\74\60\151\33\361\372\11\375\150\132\264\273\366\325\356\154\301\254\345"
+  "\126\142\326\260\115\243\277\25\31\333\153\207\260\172\374\374\274\172\276\40\40\307\1\235\176\201\114\247\157\70\36\230"
+  "\71\366\154\144\106\332\357\144\160\165\117\65\231\105\335\335\24\75\142\125\145\31\52\304\307\123\43\6\162\266\132\365"
+  "\134\205\366\242\325\1\101\62\266\66\222\267\320\322\261\16\225\262\342\275\363\345\132\213\362\71\324\51\232\67\326\325"
+  "\122\213\65\276\302\106\127\172\23\274\21\121\106\276\50\107\241\206\234\161\357\277\5\157\114\141\202\73\146\234\255\322"
+  "\41\123\227\155\155\41\40\362\353\151\106\330\336\312\210\13\255\226\327\62\127\144\67\32\126\220\20\250\13\10\51\47"
+  "\106\220\314\210\61\64\272\200\212\344\204\154\331\103\177\113\3\371\315\201\74\350\360\210\206\167\23\105\233\105\314\106"
+  "\72\154\210\53\312\166\52\272\230\57\321\54\161\116\312\372\106\61\334\24\211\30\266\356\36\151\160\110\330\40\270\7"
+  "\37\161\131\251\310\143\60\232\345\100\222\2\131\6\154\30\336\63\361\76\342\271\276\257\204\330\65\255\330\330\225\70"
+  "\314\236\146\222\26\20\225\163\117\100\252\241\140\240\131\237\367\222\103\146\47\131\340\115\253\120\47\221\54\233\310\110"
+  "\126\32\331\213\20\20\174\167\7\345\56\230\233\330\71\312\140\310\24\16\122\72\23\143\100\62\22\15\354\135\157\153"
+  "\71\65\31\115\215\67\201\262\44\17\146\152\224\343\376\247\203\113\161\367\36\32\132\144\67\347\341\344\324\226\137\162"
+  "\247\72\33\241\41\163\114\223\121\52\151\206\315\335\23\357\317\151\212\360\56\107\151\43\334\220\213\6\377\334\325\331"
+  "\57\304\303\13\364\241\200\16\113\11\360\213\361\21\346\337\307\252\25\356\67\374\233\141\323\306\373\273\332\134\375\246"
+  "\33\376\10\330\212\200\27\211\260\205\4\221\150\215\44\332\42\211\374\150\175\65\13\315\204\276\63\132\350\175\13\373"
+  "\26\204\343\355\250\254\202\60\202\243\350\75\336\145\351\70\224\114\134\161\277\72\65\330\165\202\233\241\332\332\70\54"
+  "\267\316\51\210\345\102\272\316\323\63\141\174\5\243\132\352\313\113\336\320\13\130\172\125\212\327\22\305\42\346\171\335"
+  "\317\36\3\354\200\202\61\320\125\133\5\360\236\234\242\267\50\211\35\64\72\147\212\1\174\260\46\315\260\160\246\100"
+  "\346\207\277\306\15\241\300\150\154\47\254\353\236\5\263\276\301\107\22\223\330\334\237\351\242\366\6\154\121\344\204\346"
+  "\262\332\211\22\321\163\100\200\104\55\323\243\364\122\267\265\303\236\146\103\320\313\5\165\226\254\221\133\263\266\362\131"
+  "\142\14\67\305\233\126\156\25\106\114\306\337\247\163\256\47\26\217\304\121\246\265\377\263\60\146\47\123\124\237\303\312"
+  "\135\260\111\301\107\24\346\113\240\341\231\105\237\63\56\167\114\270\57\101\166\13\273\271\126\116\155\25\32\245\104\203"
+  "\332\325\61\374\56\57\240\330\75\220\316\130\170\332\152\311\317\274\343\211\271\164\227\54\54\153\303\327\237\304\206\253"
+  "\63\155\52\57\367\62\203\377\205\162\246\354\73\37\123\276\212\115\246\374\76\146\215\171\314\32\363\215\122\301\356\343"
+  "\317\265\177\45\135\126\16\202\36\1\36\267\314\271\210\15\343\42\342\320\67\53\253\246\326\315\111\334\157\76\241\233"
+  "\60\324\41\236\65\156\202\331\317\265\152\22\261\215\34\133\270\12\157\256\323\124\335\320\64\5\26\114\40\325\211\327"
+  "\334\322\133\256\2\346\124\40\243\210\155\53\165\333\320\244\317\333\335\131\362\146\102\251\147\53\122\26\131\121\366\242"
+  "\240\154\140\234\46\147\352\352\346\304\353\324\44\302\274\357\133\303\201\277\30\52\165\126\147\351\126\215\215\26\326\222"
+  "\267\360\227\74\327\213\35\164\263\273\335\325\16\26\1\157\313\351\220\1\122\266\114\160\247\263\12\147\70\342\145\70"
+  "\45\115\143\167\172\43\26\75\323\146\150\277\231\334\260\63\355\312\175\231\242\265\326\177\170\247\314\74\155\53\135\200"
+  "\265\14\35\302\12\223\44\373\65\162\364\212\111\23\265\170\314\357\366\140\366\171\31\316\26\107\101\45\223\217\254\20"
+  "\213\46\4\244\54\233\160\225\22\271\172\260\122\225\23\246\373\212\233\165\356\154\35\257\374\356\122\163\23\363\67\207"
+  "\365\323\110\117\215\320\67\116\166\10\100\135\160\43\220\256\341\370\123\210\22\263\304\330\213\371\277\64\375\36\151\152"
+  "\120\236\163\322\104\0\123\253\336\372\373\113\113\356\7\116\252\135\73\314\54\356\371\256\301\147\304\223\243\354\42\21"
+  "\23\11\272\225\17\211\330\276\64\202\254\332\227\170\100\167\75\311\263\272\341\241\55\371\74\340\120\236\332\47\327\256"
+  "\47\122\131\220\213\335\120\241\233\14\256\160\171\100\165\215\216\120\11\273\6\201\0\2\372\346\54\55\164\50\313\157"
+  "\31\42\37\275\120\133\1\122\342\126\321\267\253\335\103\225\370\156\66\270\275\117\130\242\377\123\252\342\214\166\267\262"
+  "\154\231\177\302\50\175\122\153\61\203\205\56\251\352\24\2\200\267\157\344\373\22\315\220\104\3\332\177\345\372\74\134"
+  "\74\202\277\275\160\252\33\271\167\3\316\274\175\271\112\52\24\6\153\346\325\150\271\364\25\172\125\120\41\42\60\170"
+  "\107\70\310\257\57\211\200\332\162\30\124\245\124\216\75\323\355\71\174\155\61\34\164\157\166\331\304\375\76\71\336\270"
+  "\201\305\256\135\117\146\11\317\330\53\365\252\370\22\7\327\243\205\223\162\154\45\61\107\306\14\5\326\207\166\333\266"
+  "\21\40\166\235\245\155\4\130\327\332\210\231\14\205\46\15\150\62\67\327\154\361\260\153\233\200\15\244\107\347\4\44"
+  "\330\26\265\61\161\232\137\377\204\126\246\257\324\45\101\224\225\32\104\165\157\202\264\133\47\355\236\113\135\25\142\11"
+  "\25\72\256\50\360\120\211\305\243\263\100\120\147\217\316\2\302\75\351\123\261\227\31\54\225\256\300\154\367\241\253\134"
+  "\24\162\20\77\105\1\160\151\135\206\31\23\327\67\250\0\256\234\52\200\333\317\131\1\64\211\343\115\52\200\106\327"
+  "\151\367\121\242\371\54\355\352\306\160\24\151\54\174\321\113\132\167\206\273\254\113\220\240\103\243\374\200\136\335\246\302"
+  "\307\275\300\73\316\174\351\132\106\125\321\366\26\362\212\0\165\302\4\224\327\310\1\213\354\74\171\37\1\337\11\344"
+  "\265\35\120\256\45\224\266\216\123\167\205\261\70\146\315\267\202\235\267\244\246\16\160\222\42\162\305\265\12\276\371\353"
+  "\216\107\47\101\300\255\52\322\71\104\315\74\371\310\355\133\134\4\13\242\53\110\51\105\117\163\362\154\377\342\52\264"
+  "\253\70\247\107\277\0\215\171\5\333\14\376\263\265\177\137\325\122\24\161\315\335\36\14\257\34\113\216\60\203\154\277"
+  "\326\65\145\165\74\264\114\324\10\116\40\272\134\266\114\140\377\147\150\40\347\335\345\307\55\132\264\104\233\345\322\265"
+  "\1\333\7\327\336\15\41\245\262\11\115\254\317\230\33\235\274\241\314\352\224\57\76\253\267\313\277\330\230\162\303\345"
+  "\146\266\241\45\67\63\47\243\146\363\365\45\140\213\40\172\62\27\53\234\215\312\21\313\375\226\154\37\246\142\303\106"
+  "\355\270\202\46\315\222\37\125\26\245\244\222\224\134\220\262\251\76\245\131\336\40\354\123\200\372\117\174\205\375\147\174"
+  "\201\75\167\376\175\322\47\330\172\203\76\54\324\13\235\321\127\210\125\330\31\225\50\311\253\367\144\370\123\150\124\215"
+  "\106\220\240\110\11\257\34\173\213\42\167\142\131\220\267\270\67\356\47\56\305\335\152\311\237\363\23\17\347\361\257\177"
+  "\0";
 
 /* lib/errno.wo (DEFLATEd, org. size 9609) */
 static unsigned char file_l_6[1474] =
@@ -2016,82 +2026,85 @@ static unsigned char file_l_6[1474] =
   "\124\225\335\124\246\274\140\114\236\342\207\360\251\351\314\316\7\57\36\23\370\230\162\323\170\353\37\237\10\157\176\257"
   "\1";
 
-/* lib/fcntl.wo (DEFLATEd, org. size 20902) */
-static unsigned char file_l_7[2337] =
-  "\324\125\301\156\333\60\14\275\17\330\77\10\206\17\351\141\101\234\25\135\21\240\177\62\300\120\54\312\65\46\113\232\44"
-  "\267\353\276\176\116\350\104\65\147\55\102\233\36\166\111\331\247\107\362\361\311\246\127\275\21\203\2\126\312\106\7\365"
-  "\371\23\143\253\256\267\306\5\126\64\56\24\254\360\266\54\330\252\125\146\317\25\53\107\154\67\42\154\325\17\201\165"
-  "\137\267\67\67\67\13\71\75\364\306\275\214\151\30\140\332\24\157\60\43\253\313\330\200\260\237\271\357\152\257\271\365"
-  "\217\46\324\326\301\123\7\317\325\130\100\212\232\213\247\316\303\130\106\16\272\141\345\62\165\167\46\262\225\345\216\367"
-  "\307\46\347\370\356\166\61\106\216\3\77\50\62\166\206\54\245\114\303\103\226\60\244\346\110\173\263\34\51\174\340\241"
-  "\156\41\144\10\212\144\42\51\306\357\223\341\41\324\122\361\326\347\210\41\51\327\226\144\35\144\133\63\143\177\224\20"
-  "\321\271\132\363\36\162\324\220\24\52\351\152\362\54\17\217\265\261\240\57\211\72\23\163\244\320\70\377\275\314\37\311"
-  "\7\241\272\375\70\102\163\174\315\316\372\21\337\41\372\256\302\322\1\320\262\7\54\26\112\347\366\213\242\20\315\27"
-  "\342\72\335\342\376\155\354\313\271\30\342\73\104\63\154\317\157\322\133\332\4\321\253\65\31\3\5\232\66\101\64\267"
-  "\30\70\247\115\161\372\33\277\62\307\377\167\307\137\114\113\112\20\203\245\22\20\275\44\141\152\205\37\327\235\165\140"
-  "\54\150\37\277\236\113\54\75\364\165\36\163\142\325\15\267\274\351\302\113\26\333\327\326\330\101\361\0\42\257\272\7"
-  "\33\211\154\65\376\256\33\243\175\140\267\337\246\74\301\3\77\145\11\137\155\112\206\4\256\272\126\77\124\254\130\177"
-  "\337\154\12\344\242\211\310\165\340\273\337\160\36\366\160\316\146\56\262\11\122\246\71\350\362\201\273\20\247\105\75\323"
-  "\231\121\42\161\242\341\71\235\23\235\246\71\344\4\225\274\32\36\201\43\177\355\41\120\165\170\214\216\256\133\10\251"
-  "\73\173\135\46\0\314\7\241\115\67\21\200\237\123\54\147\216\275\56\327\246\124\201\362\100\211\377\354\273\215\100\77"
-  "\250\251\210\26\324\2\264\72\317\0\117\222\347\267\101\5\334\23\271\113\255\306\43\105\266\71\61\167\176\257\131\346"
-  "\122\322\227\12\21\7\141\160\232\70\101\344\55\115\332\322\111\251\115\144\13\44\334\240\327\201\323\223\115\217\7\302"
-  "\31\233\226\107\25\370\364\105\245\255\117\47\23\136\332\3\172\177\322\1\44\56\50\132\377\367\106\71\314\157\17\165"
-  "\145\367\13\260\356\151\105\227\226\207\307\270\250\311\212\331\217\322\176\260\262\52\117\102\215\145\345\266\244\22\252\11"
-  "\220\144\36\254\36\331\312\160\161\137\173\146\244\364\20\36\66\247\125\170\151\53\170\260\351\247\220\166\113\202\124\60"
-  "\2\134\320\27\26\123\350\143\202\333\341\155\343\321\45\171\227\265\260\362\73\125\357\62\22\224\117\75\124\240\105\206"
-  "\331\164\43\146\370\372\177\270\111\115\271\252\167\37\377\240\356\35\276\272\121\15\11\42\155\273\100\233\241\261\22\125"
-  "\174\161\373\70\150\73\37\300\235\26\33\210\132\212\371\22\222\177\332\271\16\55\305\161\40\370\57\227\363\71\12\317"
-  "\327\370\221\361\46\170\206\215\137\177\142\204\137\141\152\364\112\326\211\315\167\233\334\26\255\126\253\143\111\303\152\124"
-  "\7\377\324\257\137\270\150\165\41\373\213\237\253\141\240\35\306\317\135\376\323\15\241\270\20\302\323\214\56\131\244\25"
-  "\42\236\123\245\47\123\357\253\165\270\275\105\247\147\250\235\104\245\24\202\367\243\312\237\112\13\360\113\133\124\250\12"
-  "\112\355\251\36\243\135\21\31\76\266\100\1\73\322\33\253\262\143\17\44\365\36\117\373\176\175\33\62\53\376\330\301"
-  "\123\270\373\304\351\12\236\173\263\122\363\106\224\52\103\27\26\332\376\40\166\14\317\226\73\10\276\20\261\270\300\250"
-  "\340\342\10\34\64\70\106\14\70\54\105\143\313\324\73\230\254\311\200\162\174\275\40\163\302\347\102\147\337\360\140\177"
-  "\217\353\363\271\214\166\31\213\142\341\274\376\111\176\203\217\13\251\120\164\162\231\131\362\232\127\50\114\71\103\141\200"
-  "\77\250\42\14\175\30\262\141\333\155\56\263\103\230\322\317\32\44\267\5\210\214\101\50\51\271\132\77\320\40\263\251"
-  "\353\262\6\161\316\112\156\50\240\142\41\44\146\370\14\102\157\144\76\171\22\363\361\50\25\245\332\153\52\12\203\22"
-  "\214\146\75\360\255\20\301\144\22\100\207\6\150\122\245\101\230\33\353\260\270\207\16\211\4\211\42\124\102\26\256\221"
-  "\167\322\310\375\214\260\114\250\300\4\332\42\173\341\224\316\113\104\122\155\74\266\36\51\5\115\262\75\265\257\165\323"
-  "\4\35\244\163\42\244\76\150\150\172\373\367\120\304\166\145\314\211\214\204\333\347\10\37\203\303\310\216\210\161\51\346"
-  "\303\170\20\67\156\276\164\45\142\31\347\126\356\42\361\200\26\61\141\11\301\25\241\133\174\373\162\176\132\356\10\274"
-  "\102\151\167\103\153\355\111\10\350\12\350\102\325\67\56\2\137\314\217\30\166\127\144\13\41\115\73\42\126\230\30\241"
-  "\300\10\321\60\262\22\110\74\45\65\103\263\57\17\121\341\76\23\242\322\364\144\351\235\2\73\307\234\272\173\106\323"
-  "\56\115\260\374\4\170\240\224\234\265\236\0\175\42\51\242\323\311\372\335\311\316\144\307\120\226\76\107\1\317\270\211"
-  "\312\45\263\40\235\171\341\121\41\206\67\6\100\257\42\316\156\272\127\253\166\276\70\102\255\34\71\7\212\35\166\301"
-  "\202\10\267\233\237\272\67\353\66\50\330\76\206\164\4\152\117\14\336\254\250\235\327\375\75\61\135\356\137\36\136\333"
-  "\26\63\24\31\24\41\341\223\37\163\104\0\305\61\376\306\166\5\246\330\77\17\162\107\325\4\64\132\375\24\6\301"
-  "\161\314\300\76\224\321\241\231\373\175\47\20\344\253\45\226\22\37\271\43\300\300\176\115\45\66\43\155\236\206\223\161"
-  "\332\247\162\40\150\124\62\322\306\246\213\150\74\51\33\25\166\16\6\33\233\135\171\102\270\6\112\164\256\72\343\22"
-  "\43\144\321\15\22\173\213\137\164\166\100\32\215\0\235\24\106\346\240\121\377\224\262\20\50\21\202\106\17\360\317\10"
-  "\363\44\250\273\242\156\344\372\322\23\63\215\255\205\151\207\74\341\31\331\151\24\203\314\50\353\314\110\1\370\324\375"
-  "\63\17\317\110\73\34\276\274\336\255\206\215\311\122\361\140\142\26\34\201\7\132\323\377\207\256\152\211\45\360\376\337"
-  "\324\76\362\0\205\170\112\277\143\313\327\345\234\225\351\261\22\373\155\375\316\135\337\273\246\376\360\73\227\171\21\345"
-  "\234\70\123\371\252\217\120\30\314\345\104\102\7\132\300\171\302\143\11\244\223\106\207\311\271\246\117\10\313\234\327\62"
-  "\77\301\262\334\63\154\212\16\366\75\66\266\167\227\326\165\257\360\316\135\161\36\10\66\126\357\373\261\275\331\100\371"
-  "\374\365\241\5\103\130\342\321\103\355\273\355\356\164\154\27\363\343\332\261\347\167\335\253\335\272\357\116\266\166\302\210"
-  "\317\342\10\261\54\356\146\377\166\241\103\366\253\212\74\317\362\202\306\332\15\341\36\11\217\263\361\243\241\362\32\217"
-  "\124\174\227\343\107\216\234\316\150\250\363\255\263\262\314\115\325\144\243\63\4\256\67\162\126\145\131\327\125\125\362\321"
-  "\13\306\362\311\132\115\154\314\54\317\232\306\124\223\330\24\34\330\112\253\364\331\254\150\46\361\61\304\247\60\115\125"
-  "\326\125\155\46\361\251\274\332\311\46\361\51\177\342\164\317\175\46\27\171\172\247\241\350\330\303\42\114\0\73\206\315"
-  "\347\246\154\14\210\373\336\153\374\10\336\102\144\332\214\324\62\127\371\103\145\212\172\212\324\214\355\303\246\351\205\361"
-  "\275\230\261\331\65\121\365\165\144\146\2\136\221\362\200\176\263\362\235\317\273\304\223\364\350\22\2\206\63\377\310\12"
-  "\126\140\320\70\371\6\272\104\156\146\66\312\345\312\43\164\143\302\263\173\232\223\175\57\344\236\346\323\125\366\100\373"
-  "\22\262\163\230\37\245\211\307\311\101\243\4\175\15\45\344\346\322\54\64\170\317\263\335\226\74\161\374\231\45\125\112"
-  "\332\27\131\361\301\27\144\5\242\45\154\356\272\150\332\365\155\352\75\335\152\55\153\215\221\135\114\234\376\300\61\271"
-  "\362\134\134\321\77\250\10\366\337\3\140\310\265\207\2\260\136\372\216\153\334\157\121\7\37\333\135\255\272\36\307\54"
-  "\137\127\67\317\41\104\125\5\214\237\220\13\130\175\305\242\217\63\363\351\155\27\342\53\213\26\100\24\142\54\224\7"
-  "\160\40\261\375\77\376\11\7\170\174\124\170\303\362\345\15\141\176\370\111\172\3\103\13\360\43\320\54\253\361\163\10"
-  "\356\0\376\77\32\355\157\137\50\172\0\104\40\145\317\157\267\122\36\54\270\356\363\64\137\274\130\237\171\234\331\236"
-  "\147\72\117\56\357\55\45\151\103\312\244\327\241\320\30\177\332\356\346\173\162\317\15\56\35\27\227\160\310\230\30\302"
-  "\141\130\125\335\14\105\265\100\40\174\12\167\157\335\115\220\326\276\153\217\240\142\33\22\310\143\252\273\10\3\235\11"
-  "\310\211\172\67\326\67\37\60\153\364\110\363\206\211\140\222\57\120\235\0\237\322\253\23\160\145\204\76\105\253\35\357"
-  "\324\236\263\151\233\376\51\344\315\17\117\14\363\227\247\174\304\211\117\350\332\11\237\170\122\227\31\63\146\351\356\216"
-  "\105\210\144\23\321\237\122\116\222\137\143\304\231\311\125\115\167\315\115\140\377\245\140\157\321\170\351\47\200\155\325\117"
-  "\376\35\273\167\355\306\175\13\31\312\374\21\131\225\373\316\351\316\61\22\64\213\15\215\11\147\126\313\265\257\13\300"
-  "\202\6\166\223\303\363\13\153\306\251\356\106\105\114\54\256\166\27\115\364\317\14\101\37\362\126\225\123\62\315\135\307"
-  "\204\6\267\367\301\26\204\257\213\33\331\20\136\374\77\53\372\156\61\11\55\106\156\275\333\262\247\66\337\376\372\17"
-  "";
+/* lib/fcntl.wo (DEFLATEd, org. size 20004) */
+static unsigned char file_l_7[2464] =
+  "\355\34\331\222\233\70\360\175\277\202\232\360\60\363\220\51\163\30\73\123\225\77\331\52\12\33\341\241\302\265\200\223"
+  "\111\276\176\5\2\241\243\205\204\301\63\225\335\274\44\40\132\335\255\126\337\322\370\61\57\343\153\206\54\73\71\27"
+  "\155\366\227\145\75\246\171\125\326\255\365\160\256\333\7\353\241\251\354\7\353\361\222\225\247\50\263\154\74\366\202\107"
+  "\254\307\374\332\132\251\347\76\75\75\311\123\162\224\227\365\117\74\213\74\220\131\303\363\16\232\0\323\350\321\263\300"
+  "\77\242\46\15\233\42\252\232\327\262\15\253\32\175\117\321\17\7\317\117\342\60\212\277\247\15\302\130\222\153\161\266"
+  "\154\30\364\205\2\132\217\125\124\107\171\117\203\76\7\76\374\334\303\324\250\271\146\320\232\147\271\312\262\362\34\265"
+  "\106\174\15\240\146\234\335\304\115\22\67\155\324\206\27\324\32\360\63\1\203\34\335\56\223\1\161\203\332\60\311\242"
+  "\113\143\316\13\235\262\61\107\370\155\201\140\30\350\73\361\21\247\165\130\104\71\132\300\314\70\105\315\321\72\356\252"
+  "\250\175\15\313\12\25\72\236\50\240\31\47\232\347\131\213\64\132\121\323\306\131\172\302\53\70\367\6\106\331\47\343"
+  "\57\144\164\15\336\244\106\110\304\332\215\261\170\24\123\163\220\245\34\140\151\206\215\72\55\56\304\347\236\253\237\14"
+  "\256\156\374\205\214\256\124\12\216\106\136\101\64\362\152\53\32\370\41\143\264\154\240\101\106\15\161\241\272\56\312\7"
+  "\372\77\215\53\375\373\113\377\257\34\133\130\6\342\153\5\60\200\107\65\14\214\204\372\110\372\202\115\242\263\203\206"
+  "\211\225\62\120\161\315\103\43\300\1\50\74\107\125\164\116\333\237\46\300\115\130\225\325\65\303\101\45\66\302\335\240"
+  "\152\202\303\242\361\334\347\163\131\64\255\345\37\310\264\70\152\243\161\122\334\70\73\333\42\337\243\54\275\24\137\35"
+  "\353\341\371\357\335\356\241\7\45\322\43\240\130\120\351\57\104\327\211\77\133\234\364\54\62\322\305\277\254\223\170\124"
+  "\267\323\72\11\57\303\267\62\213\25\137\12\364\143\146\16\25\261\64\207\377\322\63\302\254\273\177\357\241\237\161\360"
+  "\21\171\353\277\22\121\76\167\321\100\261\125\14\222\26\373\5\156\21\2\301\35\175\107\377\220\307\204\223\24\203\352"
+  "\242\340\7\145\15\22\301\146\50\272\364\75\277\146\4\101\21\213\313\146\205\73\277\350\106\234\312\112\137\40\175\24"
+  "\331\224\310\164\336\131\160\325\242\60\331\75\324\13\123\200\370\354\364\3\65\152\257\165\1\54\236\162\5\254\356\2"
+  "\256\116\26\14\153\341\240\0\130\331\217\13\146\234\167\77\36\327\145\245\345\153\240\335\314\156\312\145\156\77\33\43"
+  "\45\206\127\316\355\125\27\0\301\335\240\242\226\234\104\267\350\252\103\231\244\157\150\360\21\304\333\332\135\116\41\373"
+  "\134\142\254\47\314\323\67\313\166\354\201\301\262\262\154\327\26\150\73\354\366\63\213\350\20\123\320\254\214\342\143\330"
+  "\130\145\222\140\71\174\335\215\136\115\143\345\330\151\52\364\14\42\244\42\316\361\211\337\243\130\62\102\12\117\225\1"
+  "\62\165\363\45\61\156\56\130\350\166\346\210\70\267\313\215\256\107\324\232\321\52\65\73\50\172\264\71\41\376\6\262"
+  "\233\361\144\153\44\165\37\25\74\325\324\10\107\36\304\377\73\20\127\2\141\307\30\73\226\171\124\273\216\32\135\322"
+  "\246\105\365\350\220\120\127\61\162\36\44\211\271\144\324\256\121\106\74\215\312\255\214\51\2\7\65\216\125\374\173\352"
+  "\330\302\200\153\63\250\14\102\202\141\16\241\121\62\342\201\325\51\27\244\117\5\132\244\117\13\103\47\25\263\304\37"
+  "\340\355\271\330\107\362\155\61\330\63\310\266\11\363\232\74\346\246\255\233\11\370\262\161\311\201\167\121\276\40\333\51"
+  "\221\223\44\271\24\60\54\136\230\115\133\326\110\364\166\276\64\251\2\123\144\5\37\251\53\121\35\14\123\103\321\74"
+  "\155\30\53\34\323\352\202\172\202\341\35\143\26\254\33\260\370\123\45\130\170\42\16\120\37\40\51\305\320\315\24\135"
+  "\351\151\30\122\201\62\112\63\105\230\346\172\222\264\206\235\144\100\67\1\100\125\105\43\154\115\73\161\113\205\245\110"
+  "\134\1\166\47\232\204\72\165\25\270\31\322\75\51\303\363\244\165\306\114\102\350\314\251\241\302\45\22\207\362\153\210"
+  "\134\41\166\270\43\325\201\7\117\205\224\35\31\104\100\174\233\121\117\121\264\241\172\30\232\130\15\366\173\157\77\231"
+  "\235\44\322\243\350\20\171\366\71\377\274\24\267\54\246\4\334\320\165\352\1\110\160\312\226\256\272\224\154\247\317\307"
+  "\105\254\43\112\137\341\205\144\307\315\225\73\71\130\232\12\16\166\124\46\111\142\356\306\22\213\147\74\375\142\31\230"
+  "\152\356\330\200\136\257\276\172\25\363\266\25\330\32\361\250\2\237\143\53\127\325\207\275\43\254\304\53\124\164\42\160"
+  "\151\303\253\121\45\262\162\335\242\151\214\321\211\225\311\202\112\352\213\173\153\225\43\341\120\267\63\306\252\163\251\335"
+  "\360\271\265\252\334\200\332\64\22\22\261\105\302\325\102\236\76\122\315\126\150\111\14\124\143\374\263\153\157\26\320\345"
+  "\154\254\137\154\230\107\355\371\125\154\342\260\171\25\67\26\166\255\175\176\174\246\341\103\63\56\76\1\313\242\206\205"
+  "\272\143\223\207\172\45\3\343\352\226\266\125\55\57\152\200\306\251\101\345\76\150\360\2\247\122\13\62\257\26\73\350"
+  "\235\261\327\245\144\31\35\116\165\215\75\6\113\172\47\57\230\156\353\345\356\335\6\323\263\53\313\167\135\67\6\44"
+  "\276\310\353\243\267\26\23\301\40\142\360\354\114\131\1\265\260\15\53\157\274\50\42\250\15\70\103\177\316\214\231\104"
+  "\206\246\172\314\263\332\151\46\151\21\207\321\251\241\262\5\334\340\60\202\241\102\310\221\326\10\227\110\351\167\134\5"
+  "\33\170\316\336\73\63\116\27\166\250\142\241\214\311\352\13\145\11\351\271\314\253\153\167\376\270\244\143\146\146\372\357"
+  "\337\274\137\332\45\135\140\142\160\64\356\321\321\355\202\273\132\100\360\47\342\363\155\323\6\225\344\33\210\310\275\233"
+  "\274\255\134\66\373\134\331\274\267\315\117\20\27\270\342\245\35\262\32\201\131\56\324\370\22\213\71\261\121\11\204\60"
+  "\176\10\316\343\76\73\233\71\54\231\232\254\64\164\207\246\50\162\103\134\4\110\121\165\147\163\144\40\21\334\240\375"
+  "\314\263\147\120\246\100\15\41\305\132\0\133\143\140\47\307\273\151\147\225\163\13\173\173\243\260\356\331\122\101\321\77"
+  "\373\366\115\112\51\166\174\175\251\70\140\156\326\334\162\114\0\45\25\262\2\3\236\166\214\56\254\177\11\330\250\161"
+  "\220\126\314\115\271\167\344\220\210\31\104\17\176\115\65\135\3\247\52\7\146\127\203\225\153\324\67\316\260\72\77\113"
+  "\127\177\146\371\206\317\202\246\24\305\340\240\100\132\204\331\1\305\240\321\232\154\253\73\230\352\62\245\107\364\106\256"
+  "\177\261\243\17\117\232\54\154\121\266\245\76\73\370\357\35\25\310\135\116\56\46\200\107\65\323\121\262\231\143\110\52"
+  "\133\257\132\54\131\51\275\336\244\323\321\55\40\152\47\5\42\357\202\352\210\307\316\262\52\225\344\76\263\66\143\177"
+  "\33\356\277\16\3\330\325\226\265\220\172\227\345\267\153\25\262\370\106\205\153\24\243\165\172\171\155\233\360\24\65\210"
+  "\107\77\175\113\213\127\124\247\55\316\164\170\210\17\75\21\363\334\173\250\71\136\337\30\264\174\327\161\166\216\53\147"
+  "\7\157\100\175\62\274\35\154\40\12\361\71\57\237\230\363\307\110\374\301\26\173\321\252\337\73\101\2\373\235\347\71"
+  "\201\177\334\111\175\164\66\41\220\152\13\317\333\357\175\337\223\16\34\130\110\376\314\150\57\242\10\16\316\356\170\14"
+  "\174\163\24\362\155\54\17\313\367\160\160\217\346\70\2\21\207\33\34\175\157\357\357\3\163\34\276\112\32\73\163\34"
+  "\343\146\325\174\10\166\215\23\56\160\67\71\231\56\73\24\341\62\246\67\101\217\235\300\73\6\164\254\254\125\372\14"
+  "\170\136\220\117\136\350\33\62\352\73\137\374\300\335\57\140\125\154\160\357\155\160\70\200\207\17\222\72\35\227\347\264"
+  "\67\237\77\315\234\107\337\160\164\74\375\235\216\230\124\365\101\142\243\303\67\206\61\163\264\357\43\116\135\377\204\15"
+  "\214\106\152\356\4\7\354\235\34\63\55\127\346\376\22\131\50\377\227\25\135\232\146\152\234\376\356\313\334\306\302\73"
+  "\304\206\301\6\26\321\150\171\320\21\41\66\125\266\366\166\202\41\53\77\322\317\60\41\46\361\270\21\67\210\157\112"
+  "\126\364\346\65\247\25\263\127\45\347\273\77\63\132\305\44\55\257\165\270\341\366\135\14\244\152\42\243\6\124\126\75"
+  "\145\51\77\163\175\305\165\11\335\337\214\375\237\75\230\301\21\274\353\253\252\336\165\165\14\137\305\150\313\137\263\232"
+  "\45\116\153\361\10\341\367\57\205\15\153\123\251\374\34\72\13\242\176\367\62\132\336\201\73\4\37\250\234\23\317\6"
+  "\32\253\154\323\60\56\222\25\26\251\242\267\323\356\376\137\246\313\323\275\152\152\364\163\56\14\104\124\153\225\272\16"
+  "\224\343\45\120\162\107\302\305\161\343\132\275\307\377\51\370\70\153\272\117\305\15\326\321\153\152\145\274\167\332\216\71"
+  "\256\344\332\350\324\375\340\201\153\167\30\73\32\35\125\315\45\231\325\71\277\147\157\173\217\166\246\235\377\247\212\330"
+  "\76\6\73\301\164\361\324\35\274\232\324\40\52\301\164\122\225\322\36\245\154\31\52\333\225\322\305\337\310\345\204\20"
+  "\177\32\363\111\74\250\24\371\122\76\306\206\304\246\114\200\271\61\337\211\201\13\43\146\42\370\47\256\106\215\225\171"
+  "\264\343\11\113\146\136\226\174\274\354\344\246\314\66\262\343\273\164\346\302\233\55\127\127\170\73\371\164\64\342\42\113"
+  "\357\254\242\112\6\122\47\206\300\351\33\3\256\313\143\110\50\3\44\267\123\40\145\325\351\35\13\370\44\136\125\351"
+  "\31\106\16\372\333\54\140\374\370\24\334\51\202\30\42\376\360\116\324\232\66\341\373\267\51\201\277\262\152\322\267\60"
+  "\31\177\73\151\314\247\271\141\115\136\115\54\211\373\31\27\162\135\214\35\350\60\235\221\52\335\346\174\112\207\155\231"
+  "\137\315\332\361\145\345\75\233\345\24\225\127\171\207\35\135\372\27\35\314\362\347\57\347\20\201\212\104\367\313\315\234"
+  "\354\261\241\232\320\237\262\22\25\145\374\71\254\65\252\362\107\55\156\124\13\355\26\17\273\43\156\362\323\137\377\2";
 
 /* lib/fenv.wo (DEFLATEd, org. size 1286) */
 static unsigned char file_l_8[260] =
@@ -2105,8 +2118,15 @@ static unsigned char file_l_8[260] =
   "\153\126\50\56\275\257\367\140\363\311\175\51\235\71\174\163\77\74\341\207\67\367\223\142\156\4\107\347\52\134\151\164"
   "\365\374\3";
 
+/* lib/include/NDEBUG/assert.h (DEFLATEd, org. size 150) */
+static unsigned char file_l_9[116] =
+  "\105\214\265\25\2\101\20\100\143\254\7\334\265\4\74\43\43\346\255\357\335\272\266\217\303\215\333\237\325\264\175\50\0"
+  "\323\46\304\2\205\366\164\325\252\267\352\75\353\1\123\240\155\64\42\257\376\171\24\171\21\332\117\3\355\313\341\270"
+  "\273\236\333\234\0\114\374\23\170\257\103\4\117\376\6\102\40\76\276\356\140\52\144\134\24\372\367\21\23\132\150\362"
+  "\203\67\325\344\203\214\311\244\75\36\147\123\340\311\172\322\252\77\0";
+
 /* lib/include/assert.h (DEFLATEd, org. size 182) */
-static unsigned char file_l_9[137] =
+static unsigned char file_l_10[137] =
   "\105\214\301\12\302\60\14\206\357\203\275\103\300\113\73\220\355\354\105\220\211\67\157\236\45\333\342\32\350\132\111\132\237"
   "\337\26\25\41\204\44\371\277\257\357\140\144\134\103\324\304\263\102\327\267\115\333\354\236\202\353\206\20\303\114\165\57"
   "\241\344\130\241\24\202\320\232\75\12\70\302\205\244\22\365\257\11\213\340\216\252\44\251\6\247\314\76\355\71\374\224"
@@ -2114,7 +2134,7 @@ static unsigned char file_l_9[137] =
   "\234\35\116\236\254\155\233\67";
 
 /* lib/include/ctype.h (DEFLATEd, org. size 495) */
-static unsigned char file_l_10[154] =
+static unsigned char file_l_11[154] =
   "\164\320\101\152\5\61\10\6\340\375\203\271\203\320\115\233\115\16\320\145\117\342\230\220\110\23\23\214\241\163\374\62\333"
   "\171\270\123\76\104\177\143\200\237\212\212\144\131\241\242\244\306\122\40\304\343\165\274\76\246\142\351\10\103\50\337\175"
   "\276\54\253\0\213\1\57\154\262\373\347\135\323\327\367\233\315\212\216\221\230\66\307\22\27\66\307\212\342\254\216\265"
@@ -2122,7 +2142,7 @@ static unsigned char file_l_10[154] =
   "\45\241\46\70\267\1\215\336\207\100\210\317\167\57\142\166\316\71\33\312\357\377\20\162\0";
 
 /* lib/include/dirent.h (DEFLATEd, org. size 1506) */
-static unsigned char file_l_11[504] =
+static unsigned char file_l_12[504] =
   "\322\327\2\64\123\225\135\157\302\120\370\173\345\77\334\171\141\356\256\324\250\353\174\343\144\20\332\234\321\204\223\244\363"
   "\375\367\335\244\274\306\201\356\353\133\357\43\127\11\20\13\271\41\32\104\14\21\223\64\324\102\376\4\312\265\144\124"
   "\201\173\275\136\251\127\316\245\222\254\66\4\4\17\51\376\143\74\114\266\21\205\47\352\247\272\256\177\246\124\135\133"
@@ -2141,7 +2161,7 @@ static unsigned char file_l_11[504] =
   "\210\146\227\120\220\155\125\122\64\261\120\347\73\57\47\16\31\23\334\334\0\376\1";
 
 /* lib/include/errno.h (DEFLATEd, org. size 1694) */
-static unsigned char file_l_12[599] =
+static unsigned char file_l_13[599] =
   "\322\327\122\160\55\52\312\57\52\126\320\322\347\345\342\345\122\56\50\112\114\317\115\124\310\317\113\116\5\363\123\122\323"
   "\62\363\122\1\144\324\111\272\243\40\24\206\341\255\374\113\10\255\336\41\321\243\341\271\10\6\60\115\355\177\41\25"
   "\122\335\41\65\175\155\77\72\120\71\246\211\112\301\211\231\74\373\25\202\201\153\367\100\162\231\347\354\343\121\10\352"
@@ -2163,7 +2183,7 @@ static unsigned char file_l_12[599] =
   "\50\44\147\44\26\51\150\305\247\346\26\247\107\43\253\324\66\214\5\232\2\0";
 
 /* lib/include/fcntl.h (DEFLATEd, org. size 2242) */
-static unsigned char file_l_13[715] =
+static unsigned char file_l_14[715] =
   "\235\223\327\222\233\74\30\206\217\377\166\17\337\337\155\334\235\336\103\100\336\60\213\141\3\256\107\14\13\302\146\6\13"
   "\17\150\323\57\76\122\144\215\221\43\247\161\102\173\236\127\37\57\60\60\40\313\13\14\111\111\150\125\26\120\356\151"
   "\136\222\32\132\361\165\225\247\33\234\266\301\30\374\361\353\37\277\376\275\257\342\315\56\206\222\44\230\235\345\44\51"
@@ -2189,7 +2209,7 @@ static unsigned char file_l_13[715] =
   "\321\54\52\216\215\3\300\27\377\4";
 
 /* lib/include/fenv.h (DEFLATEd, org. size 780) */
-static unsigned char file_l_14[317] =
+static unsigned char file_l_15[317] =
   "\215\120\305\162\303\60\20\275\6\377\141\313\216\313\327\346\122\162\56\145\356\315\243\261\327\216\2\222\106\222\135\376\367"
   "\256\303\114\346\267\373\350\320\205\132\113\62\313\105\274\257\44\27\26\120\244\134\113\321\106\172\166\17\313\205\162\141"
   "\103\151\26\267\31\110\21\140\366\116\73\267\347\47\360\166\366\164\3\241\104\3\102\132\60\211\122\122\133\32\302\75"
@@ -2202,7 +2222,7 @@ static unsigned char file_l_14[317] =
   "\335\324\64\121\135\266\302\236\237\71\203\303\354\4\364\103\57\34\115\124\310\54\316\237\56\27\376\1";
 
 /* lib/include/float.h (DEFLATEd, org. size 665) */
-static unsigned char file_l_15[278] =
+static unsigned char file_l_16[278] =
   "\322\327\122\360\314\55\310\111\315\115\315\53\111\54\311\314\317\123\310\311\314\315\54\51\126\320\110\53\320\124\320\322\347"
   "\345\342\345\122\56\50\112\114\317\115\124\310\317\113\116\5\363\123\122\323\62\363\0\145\220\5\212\105\61\14\105\267"
   "\122\164\264\217\150\223\240\343\356\372\321\207\165\377\113\370\256\55\316\65\16\267\246\233\253\227\361\346\361\76\241\36"
@@ -2214,7 +2234,7 @@ static unsigned char file_l_15[278] =
   "\232\301\356\332\143\226\101\123\11\141\5\47\42\67\5\13\253\171\211\75\3";
 
 /* lib/include/inttypes.h (DEFLATEd, org. size 3738) */
-static unsigned char file_l_16[557] =
+static unsigned char file_l_17[557] =
   "\322\327\122\160\313\57\312\115\54\121\310\115\114\56\312\127\110\316\317\53\56\111\314\53\51\126\320\322\347\345\342\345\122"
   "\56\50\112\114\317\115\124\310\317\113\116\5\363\123\122\323\62\363\122\25\2\202\74\123\54\24\224\122\224\120\205\14"
   "\315\60\305\214\215\60\305\314\114\24\224\162\162\0\165\225\1\206\36\141\20\5\357\62\67\131\221\17\44\21\331\305"
@@ -2235,7 +2255,7 @@ static unsigned char file_l_16[557] =
   "\61\307\142\76\111\324\367\340\357\276\377\17";
 
 /* lib/include/limits.h (DEFLATEd, org. size 635) */
-static unsigned char file_l_17[230] =
+static unsigned char file_l_18[230] =
   "\164\120\63\202\103\1\20\255\127\167\210\155\227\153\306\256\222\174\333\274\375\142\366\33\123\215\37\332\265\314\207\40\363"
   "\204\100\210\72\242\63\222\230\341\31\201\321\265\114\255\175\167\175\167\235\227\125\204\22\220\214\44\142\4\324\70\101"
   "\62\42\221\171\172\177\130\237\37\77\266\231\111\244\67\173\70\146\272\275\161\264\373\61\317\124\232\335\336\244\352\17"
@@ -2246,7 +2266,7 @@ static unsigned char file_l_17[230] =
   "\10\5\5\30\0";
 
 /* lib/include/locale.h (DEFLATEd, org. size 215) */
-static unsigned char file_l_18[154] =
+static unsigned char file_l_19[154] =
   "\115\216\275\112\300\60\24\106\367\100\336\341\243\56\115\350\337\350\132\134\343\344\340\50\151\162\133\3\361\106\154\122\301"
   "\247\267\241\124\34\317\271\334\303\67\152\230\344\154\14\77\66\207\304\320\243\24\122\74\174\176\331\355\303\42\261\243"
   "\312\243\306\236\313\62\300\131\306\102\50\73\171\4\206\57\66\366\47\300\45\117\310\11\147\150\143\160\342\376\165\176"
@@ -2254,7 +2274,7 @@ static unsigned char file_l_18[154] =
   "\41\236\326\300\204\353\214\351\317\374\173\215\256\253\115\205\266\75\122\360\152\122\122\374\2";
 
 /* lib/include/math.h (DEFLATEd, org. size 1519) */
-static unsigned char file_l_19[417] =
+static unsigned char file_l_20[417] =
   "\215\223\345\262\334\60\14\106\177\227\336\101\145\146\146\146\146\6\45\226\167\65\343\310\251\341\362\175\367\146\231\325\345"
   "\44\347\130\363\31\164\372\30\274\304\324\246\12\23\227\21\216\235\336\263\163\317\316\375\165\300\126\205\340\245\244\346"
   "\216\245\164\331\20\334\210\353\361\64\113\12\361\124\373\126\307\153\6\77\371\370\370\341\357\117\167\137\0\107\50\62"
@@ -2270,13 +2290,6 @@ static unsigned char file_l_19[417] =
   "\150\355\26\262\224\12\27\302\120\254\263\44\365\44\340\232\32\172\44\262\350\342\250\313\253\263\223\175\336\171\377\3"
   "";
 
-/* lib/include/NDEBUG/assert.h (DEFLATEd, org. size 150) */
-static unsigned char file_l_20[116] =
-  "\105\214\265\25\2\101\20\100\143\254\7\334\265\4\74\43\43\346\255\357\335\272\266\217\303\215\333\237\325\264\175\50\0"
-  "\323\46\304\2\205\366\164\325\252\267\352\75\353\1\123\240\155\64\42\257\376\171\24\171\21\332\117\3\355\313\341\270"
-  "\273\236\333\234\0\114\374\23\170\257\103\4\117\376\6\102\40\76\276\356\140\52\144\134\24\372\367\21\23\132\150\362"
-  "\203\67\325\344\203\214\311\244\75\36\147\123\340\311\172\322\252\77\0";
-
 /* lib/include/stdarg.h (DEFLATEd, org. size 583) */
 static unsigned char file_l_21[267] =
   "\165\120\265\162\300\60\14\235\113\377\240\262\235\162\227\362\324\261\314\143\56\174\56\310\71\103\312\377\136\311\201\362\244"
@@ -2321,41 +2334,42 @@ static unsigned char file_l_24[490] =
   "\5\151\340\243\355\136\77\141\154\163\22\277\242\165\344\316\316\115\145\213\161\44\362\311\203\146\155\303\126\252\375\20"
   "\116\124\321\111\105\162\124\377\7";
 
-/* lib/include/stdio.h (DEFLATEd, org. size 3869) */
-static unsigned char file_l_25[1054] =
-  "\235\126\345\272\244\70\20\375\275\366\16\265\16\355\335\353\173\155\334\335\275\277\64\204\276\354\102\302\227\204\361\231\147"
-  "\237\242\302\275\35\322\356\122\71\347\224\102\322\157\301\125\121\224\246\57\113\203\137\320\352\177\367\365\167\137\377\130"
-  "\50\66\315\31\110\21\161\374\227\212\50\53\143\16\373\332\304\114\115\173\307\207\15\343\73\335\217\142\236\150\264\23"
-  "\31\177\247\202\303\305\333\227\40\350\16\303\231\345\334\303\113\367\257\76\203\341\140\364\373\314\170\377\34\31\377\236"
-  "\131\56\335\276\163\361\326\370\346\331\47\60\32\0\6\230\263\267\360\143\222\146\134\203\54\270\0\146\50\60\214\325"
-  "\341\134\275\161\361\326\331\233\27\55\355\117\342\145\122\114\271\66\120\121\101\260\234\327\331\231\167\5\107\32\255\333"
-  "\217\244\220\172\154\366\334\105\155\124\31\31\30\247\162\122\46\360\341\273\257\1\264\116\337\363\261\201\110\230\75\250"
-  "\37\225\237\350\230\51\26\31\256\64\144\74\261\65\4\50\205\116\247\202\307\264\14\255\11\323\174\317\106\25\61\223"
-  "\112\1\62\1\224\116\270\132\114\50\214\332\43\171\301\337\232\231\17\300\120\123\342\57\144\161\21\133\26\376\230\363"
-  "\220\12\3\111\306\246\32\41\156\2\232\233\12\73\276\172\373\311\223\47\26\341\62\142\27\116\14\133\322\230\353\110"
-  "\245\205\221\12\202\3\170\174\366\376\125\304\216\115\150\271\66\40\215\1\74\267\55\176\271\147\271\303\156\76\241\65"
-  "\47\266\117\324\300\75\167\174\60\232\113\347\56\41\145\200\217\206\371\336\305\263\27\310\74\154\230\37\337\173\140\321"
-  "\243\206\371\326\211\310\357\15\63\116\47\231\107\203\246\371\336\75\62\377\336\64\337\260\42\103\77\222\307\120\231\107"
-  "\236\371\346\123\234\164\100\215\101\225\20\266\217\53\101\11\322\70\75\77\235\357\227\173\63\232\66\161\52\0\202\137"
-  "\10\62\170\31\66\226\144\151\116\226\206\336\22\127\352\144\151\204\113\236\303\126\122\135\62\101\44\205\66\365\210\124"
-  "\275\253\256\206\16\270\326\134\306\74\334\363\311\61\261\355\24\154\202\127\174\13\167\235\232\245\215\342\54\167\304\310"
-  "\137\224\111\315\203\6\302\51\327\224\233\50\50\102\10\272\135\374\352\36\106\110\71\74\200\1\34\101\320\270\44\302"
-  "\26\255\27\106\265\333\360\57\214\61\234\14\7\17\215\116\31\213\22\325\336\166\140\261\240\253\160\0\301\333\220\164"
-  "\262\122\37\127\102\370\277\42\206\315\330\320\163\200\142\24\46\265\326\163\107\0\124\12\310\65\151\330\66\273\270\50"
-  "\343\114\161\245\50\321\340\265\114\343\60\240\130\354\45\372\313\1\174\16\354\314\176\264\23\35\272\354\204\313\204\230"
-  "\56\5\54\260\1\123\112\252\171\240\25\166\200\324\110\351\0\343\320\355\330\254\264\313\273\352\224\255\372\27\255\236"
-  "\0\52\336\22\100\75\133\10\321\201\375\255\73\304\22\253\65\251\334\33\370\106\234\156\214\261\136\211\237\207\173\200"
-  "\122\114\371\162\317\375\126\115\163\363\11\241\333\5\71\321\62\343\306\156\135\265\136\275\15\45\310\216\151\52\150\263"
-  "\350\324\166\372\72\375\43\344\344\277\171\177\236\320\33\225\32\136\207\277\223\236\133\71\315\371\377\215\256\165\354\36"
-  "\53\23\134\62\266\111\122\245\323\124\70\114\102\44\206\147\331\262\206\123\134\212\277\111\105\34\254\31\232\102\152\57"
-  "\0\273\277\123\132\163\341\56\302\123\51\126\261\150\214\127\305\201\262\257\375\153\241\123\67\31\355\266\14\164\23\164"
-  "\313\354\347\213\52\53\104\346\146\126\341\227\217\156\334\212\245\312\31\266\240\327\353\171\334\232\272\31\130\133\364\354"
-  "\272\333\220\46\174\236\315\34\351\245\60\233\252\274\136\21\352\153\66\316\122\264\62\65\365\131\233\27\147\205\210\227"
-  "\370\366\374\215\53\320\202\365\162\211\216\230\330\255\335\226\271\41\326\5\157\335\162\237\274\173\337\335\164\167\156\40"
-  "\111\154\113\162\131\273\267\176\247\112\170\232\264\123\64\116\134\46\57\252\175\331\36\16\366\252\35\103\110\203\56\351"
-  "\70\216\107\227\276\103\41\145\242\10\226\333\31\324\317\157\214\355\377\227\13\331\156\22\364\126\74\227\257\371\302\3"
-  "\236\227\262\42\143\3\51\263\170\376\44\50\370\33\142\173\267\276\202\216\45\363\173\52\345\323\142\6\13\243\122\46"
-  "\214\266\121\372\176\231\241\275\26\75\372\7\127\64\25\314\34\167\10\214\316\375\165\64\125\353\225\257\57";
+/* lib/include/stdio.h (DEFLATEd, org. size 3817) */
+static unsigned char file_l_25[1088] =
+  "\245\127\155\157\342\106\20\376\316\257\30\51\322\311\346\40\100\24\125\125\151\162\112\124\122\105\312\233\310\235\222\66"
+  "\212\220\261\327\304\255\331\265\166\27\222\353\333\157\357\354\254\15\153\143\174\156\312\207\200\147\346\171\346\335\273\31"
+  "\164\341\222\147\53\75\20\53\215\137\320\35\164\72\7\231\14\26\313\0\4\17\131\347\40\341\141\272\212\30\374\250"
+  "\164\24\310\305\341\313\251\53\373\252\6\141\304\142\145\304\235\3\374\225\160\6\223\333\13\360\372\43\177\43\70\377"
+  "\162\161\177\371\53\214\206\107\307\33\331\375\71\311\276\337\10\56\156\357\46\67\263\353\263\107\70\32\302\240\13\313"
+  "\340\15\16\342\44\145\12\104\306\70\4\232\42\62\41\156\40\227\127\223\233\263\353\211\105\175\107\260\124\360\5\123"
+  "\32\14\22\170\260\44\100\107\177\315\30\202\110\153\377\304\231\120\63\75\336\252\224\226\253\120\303\54\21\363\125\14"
+  "\177\166\0\224\112\376\140\63\15\41\327\143\50\76\350\42\174\11\144\20\152\46\25\244\54\246\242\1\254\270\112\26"
+  "\234\105\244\205\356\74\120\154\154\343\11\3\235\10\16\42\6\44\216\231\254\265\317\264\34\23\71\147\157\172\353\1"
+  "\60\312\204\340\165\40\306\43\13\302\37\125\376\204\143\15\322\140\241\266\241\223\251\142\332\230\316\56\157\37\37\37"
+  "\255\205\3\210\134\153\13\240\102\106\114\205\62\311\264\220\340\235\300\303\331\375\45\332\316\264\157\241\24\215\102\357"
+  "\117\266\253\317\143\13\35\365\227\163\322\155\3\373\233\232\66\336\16\13\6\162\161\176\201\366\103\374\270\322\351\344"
+  "\354\47\222\216\134\351\303\364\263\265\75\162\245\67\5\303\261\53\65\163\150\244\107\45\336\311\164\112\322\343\222\364"
+  "\312\62\214\52\61\74\230\42\40\101\111\172\375\13\16\64\40\101\111\372\345\346\347\311\147\142\50\211\317\356\356\162"
+  "\212\141\247\203\275\145\222\123\11\150\320\236\66\103\377\74\336\200\160\321\22\16\340\175\40\213\341\263\357\152\160\117"
+  "\13\315\250\254\141\122\26\232\43\324\224\174\165\143\263\102\136\50\270\322\371\354\230\266\232\365\350\201\53\135\212\210"
+  "\371\343\12\66\42\260\235\217\26\346\222\375\7\147\275\34\205\333\307\202\345\226\213\274\205\251\120\314\253\30\24\51"
+  "\57\230\16\275\314\307\67\115\37\277\372\247\270\245\160\172\2\103\370\4\136\151\117\374\56\351\161\303\76\176\204\37"
+  "\140\206\301\244\70\220\50\334\326\17\337\175\241\367\326\203\172\76\227\340\4\274\67\237\150\322\225\172\61\74\370\154"
+  "\200\176\51\62\364\353\41\27\5\111\15\255\70\63\172\344\361\310\61\61\330\346\72\146\141\312\2\211\135\245\44\275"
+  "\265\110\42\337\243\100\354\322\176\70\201\177\74\73\317\177\331\141\367\35\160\314\104\154\201\16\42\137\12\327\112\112"
+  "\41\353\355\246\123\307\316\364\117\70\166\221\357\66\152\123\322\375\275\334\226\313\74\205\215\155\247\242\325\353\363\161"
+  "\102\13\345\331\337\252\107\40\336\310\110\125\376\266\143\64\123\245\271\125\115\346\273\326\145\375\212\123\42\365\156\363"
+  "\143\4\272\156\52\76\364\373\40\346\112\244\114\323\271\225\263\345\347\20\156\126\20\321\40\320\171\321\53\344\346\153"
+  "\363\300\305\374\267\175\121\27\74\257\62\321\54\17\375\177\320\121\315\24\143\277\227\232\325\263\347\253\210\121\245\155"
+  "\163\204\114\26\270\1\33\240\75\200\65\113\323\75\155\246\240\44\173\115\170\344\65\17\12\236\217\25\357\366\140\247"
+  "\224\166\102\255\61\267\125\330\17\242\271\155\10\2\111\327\325\321\357\25\227\200\125\154\13\140\337\164\116\175\53\251"
+  "\42\111\3\107\165\112\45\176\305\265\151\344\353\41\344\62\300\322\37\36\36\126\46\326\42\133\331\252\302\270\130\204"
+  "\166\50\136\205\25\167\50\261\342\272\45\311\272\41\316\165\60\113\23\224\342\125\264\2\152\137\227\375\34\255\222\156"
+  "\200\267\316\36\257\125\337\142\213\125\30\360\167\265\331\2\333\231\356\332\266\157\165\55\366\75\375\156\235\152\103\351"
+  "\367\346\334\200\151\235\174\123\313\337\131\205\62\245\271\303\273\227\50\275\314\314\231\153\117\375\261\71\26\270\320\350"
+  "\221\256\336\237\314\321\260\105\130\136\104\340\15\313\116\236\172\272\232\331\347\347\172\260\223\201\144\113\261\146\265\267"
+  "\265\162\252\222\144\45\103\221\106\273\267\72\316\136\313\140\172\303\145\366\246\121\75\56\115\32\135\374\317\156\35\310"
+  "\44\340\132\355\4\147\250\2\115\207\50\172\253\336\77\121\224\5\372\45\277\2\260\327\252\36\105\106\217\216\376\5";
 
 /* lib/include/stdlib.h (DEFLATEd, org. size 1993) */
 static unsigned char file_l_26[597] =
@@ -2402,13 +2416,13 @@ static unsigned char file_l_28[113] =
   "\25\200\346\330\52\204\73\6\173\52\204\173\270\372\71\273\202\44\200\372\321\124\73\207\6\51\150\30\142\252\6\111"
   "\140\252\166\365\163\121\320\60\302\124\15\222\200\272\15\0";
 
-/* lib/include/sys.crt.h (DEFLATEd, org. size 243) */
-static unsigned char file_l_29[154] =
-  "\125\215\1\7\303\60\20\205\1\10\371\17\247\203\266\120\66\300\300\60\100\67\146\30\63\25\351\165\216\345\122\311\145"
-  "\266\375\372\265\205\154\200\367\276\357\356\65\65\204\304\102\16\241\307\201\230\204\74\107\250\33\255\264\132\215\301\334"
-  "\235\1\317\26\163\162\276\117\17\204\302\6\51\26\153\71\104\70\36\316\373\123\333\265\273\13\154\326\132\311\173\304"
-  "\211\300\323\123\17\145\355\131\60\270\156\110\154\73\251\312\271\255\266\132\341\153\252\31\376\350\157\212\327\374\366\226"
-  "\375\110\37\314\242\365\211\45\303\145\161\6\304\106\260\44\26\210\142\44\305\171\120\253\57";
+/* lib/include/sys.crt.h (DEFLATEd, org. size 266) */
+static unsigned char file_l_29[157] =
+  "\175\216\61\13\302\60\24\204\367\374\212\107\135\332\56\5\35\235\34\34\253\40\16\202\110\11\351\253\74\150\136\112"
+  "\362\42\352\257\67\355\320\352\342\170\167\337\35\127\225\340\43\13\131\204\26\73\142\22\162\34\240\254\224\132\15\136"
+  "\337\255\6\307\6\147\141\135\33\173\204\314\170\311\22\62\165\20\216\207\363\376\124\67\365\356\2\233\265\222\327\200"
+  "\51\200\207\243\26\362\322\261\240\267\115\27\331\64\122\344\243\133\154\25\76\223\313\360\23\176\253\160\135\106\157\63"
+  "\36\350\215\13\147\134\272\376\177\252\327\141\41\246\103\243\115\254\5\163\142\201\40\132\142\110\177\324\7";
 
 /* lib/include/sys.intrs.h (DEFLATEd, org. size 3110) */
 static unsigned char file_l_30[612] =
@@ -2482,23 +2496,23 @@ static unsigned char file_l_33[457] =
   "\173\327\216\166\315\165\331\165\26\377\60\302\50\237\14\345\354\77\54\152\336\261\321\27\105\74\177\23\72\257\121\212"
   "\131\317\311\12\377\243\336\237";
 
-/* lib/include/unistd.h (DEFLATEd, org. size 1529) */
-static unsigned char file_l_34[453] =
-  "\322\327\2\124\116\125\133\163\302\100\370\272\366\16\123\7\352\356\275\251\273\313\35\47\44\3\344\154\10\234\144\350\376"
-  "\364\351\377\260\32\262\356\303\147\23\5\113\114\13\146\4\330\256\312\152\45\71\360\132\367\40\131\160\14\120\327\240"
-  "\205\210\145\106\212\2\105\14\311\215\63\47\317\234\74\337\30\126\124\14\152\315\321\75\111\315\125\53\20\236\332\316"
-  "\336\230\130\256\227\317\103\234\13\314\247\270\143\134\55\65\302\217\237\57\337\175\116\137\277\373\370\352\363\27\200\350"
-  "\146\74\240\276\374\372\71\347\242\133\103\352\325\367\357\13\352\266\107\275\116\277\174\30\346\374\165\310\320\376\307\41"
-  "\103\327\367\11\162\67\356\207\206\107\204\106\203\265\362\77\246\4\6\231\210\244\46\310\305\125\370\127\113\1\111\326"
-  "\346\127\141\106\353\370\311\212\145\154\44\341\334\63\135\317\75\235\315\256\156\131\107\170\25\352\74\117\251\377\265\110"
-  "\353\122\166\17\140\167\330\24\126\26\161\264\110\362\245\127\241\107\307\45\152\216\236\155\42\45\323\152\316\10\3\243"
-  "\102\135\120\31\210\271\252\355\134\30\120\322\62\242\156\225\233\116\305\146\146\62\262\206\114\112\116\317\343\47\160\43"
-  "\351\13\260\145\335\52\1\31\2\203\252\125\44\33\205\156\14\160\377\356\7\110\156\14\172\60\316\321\332\150\272\106"
-  "\274\144\6\222\206\121\171\165\112\126\265\10\47\327\152\45\365\210\221\277\274\353\254\224\53\126\254\365\256\64\13\124"
-  "\136\176\255\104\330\302\101\313\56\32\307\41\357\240\35\243\360\307\340\107\256\315\11\274\266\253\146\303\363\265\124\320"
-  "\64\140\335\232\50\75\332\34\264\66\146\207\335\277\231\73\367\142\132\373\307\336\325\175\265\45\60\72\60\306\233\226"
-  "\251\204\64\133\6\24\310\27\226\150\207\60\27\214\230\355\64\137\177\123\362\220\362\56\112\212\107\162\72\40\113\214"
-  "\132\333\363\307";
+/* lib/include/unistd.h (DEFLATEd, org. size 1488) */
+static unsigned char file_l_34[460] =
+  "\235\124\301\156\243\60\20\275\363\25\43\345\2\50\332\264\125\265\227\126\173\332\126\252\132\65\122\266\253\335\133\144"
+  "\354\1\254\30\203\354\141\123\372\365\65\220\46\206\320\244\332\13\32\336\233\367\346\331\330\54\142\260\304\264\140\106"
+  "\200\155\212\244\124\222\3\57\165\13\222\5\307\0\65\25\132\10\131\142\244\310\120\104\20\57\202\140\126\31\226\25"
+  "\14\112\315\61\230\111\315\125\55\20\156\155\143\27\135\377\267\374\307\10\346\2\323\16\16\146\256\222\32\341\327\313"
+  "\317\207\347\365\375\303\323\335\363\22\40\274\210\174\146\371\373\345\203\12\57\7\314\335\152\265\147\256\16\314\375\172"
+  "\371\70\60\371\333\1\236\366\117\7\170\222\125\7\134\107\101\200\257\204\106\203\265\362\15\327\4\6\231\10\245\46"
+  "\110\305\34\376\225\122\100\234\324\351\34\166\264\216\156\306\212\255\221\204\173\111\267\201\137\23\126\347\146\45\15\341"
+  "\34\312\64\165\57\356\151\221\46\114\276\70\376\224\127\217\52\213\270\331\33\371\235\163\150\321\155\216\356\213\37\124"
+  "\135\47\231\132\163\346\5\330\171\241\316\50\37\366\162\125\332\217\276\41\43\55\43\152\216\250\176\25\66\61\135\252"
+  "\212\214\63\166\347\52\272\201\105\334\26\140\363\262\126\2\22\4\6\105\255\110\126\12\135\0\370\176\375\330\236\124"
+  "\157\2\343\34\255\15\373\335\341\71\63\20\127\214\362\176\141\254\50\305\150\135\265\126\122\157\30\215\366\365\110\111"
+  "\251\142\331\224\364\150\324\260\311\163\57\225\30\17\160\320\141\206\306\355\230\167\320\351\14\107\11\366\216\23\66\103"
+  "\251\373\23\354\302\371\255\224\321\141\342\70\216\322\233\117\175\246\135\116\252\375\233\170\366\53\364\265\177\322\135\335"
+  "\126\237\373\205\377\345\322\106\60\205\220\346\104\234\211\356\63\347\40\25\214\230\155\64\237\274\27\351\44\323\135\213"
+  "\65\276\312\76\210\373\135\123\155\35\375\16";
 
 /* lib/include/wasi.api.h (DEFLATEd, org. size 48950) */
 static unsigned char file_l_35[10409] =
@@ -2904,139 +2918,151 @@ static unsigned char file_l_36[2302] =
   "\162\245\227\327\256\373\372\313\76\317\170\27\372\27\276\354\267\61\140\166\233\313\373\375\277\324\264\174\21\311\26\357"
   "\355\305\274\313\267\34\332\202\157\375\142\242\164\260\272\151\332\246\3\144\140\133\234\267\27\253\263\375\17";
 
-/* lib/include/wasm_simd128.h (DEFLATEd, org. size 44179) */
-static unsigned char file_l_37[4173] =
-  "\244\324\305\222\334\60\20\6\340\163\350\35\72\154\171\231\231\231\171\367\250\32\266\252\144\50\301\320\323\307\30\352\112"
-  "\324\263\163\62\375\177\373\63\316\370\160\171\371\174\65\245\315\100\266\340\145\357\341\12\36\316\256\16\347\346\127\301"
-  "\237\371\360\366\303\333\317\211\252\165\302\32\304\121\243\225\155\247\205\156\172\224\33\20\32\352\126\110\63\45\242\74"
-  "\373\131\104\15\151\233\55\330\324\246\51\42\63\35\154\377\131\350\325\164\310\363\165\31\327\232\136\43\216\264\201\156"
-  "\54\232\340\47\154\243\230\321\154\265\105\324\372\73\232\60\360\274\142\212\347\263\337\232\76\143\151\62\77\64\235\45"
-  "\41\156\267\165\313\154\315\102\115\212\116\264\65\267\314\322\62\373\237\143\225\353\104\326\214\233\203\32\124\125\125\100"
-  "\70\247\155\156\231\214\103\25\252\256\152\40\336\274\223\267\60\117\346\241\12\225\127\65\20\157\321\311\133\136\44\363"
-  "\120\205\312\253\32\210\267\372\57\236\230\133\356\227\357\121\177\325\101\103\161\52\53\13\163\115\176\341\354\150\46\373"
-  "\172\223\45\233\304\302\174\177\261\174\245\373\213\16\24\316\223\124\125\232\153\362\313\157\107\144\331\161\130\226\314\22"
-  "\313\213\375\371\362\13\353\317\273\130\50\117\142\125\151\256\311\337\242\35\221\145\307\141\131\12\13\375\216\206\55\25"
-  "\43\330\324\24\144\207\65\310\132\112\233\205\70\222\203\35\314\105\163\376\2\213\310\244\107\14\302\346\141\244\205\131"
-  "\302\57\155\54\57\232\343\366\126\141\354\135\45\170\127\171\6\372\223\73\131\105\273\223\220\236\20\4\3\316\357\217"
-  "\356\236\316\356\217\370\301\315\365\303\343\336\365\243\47\176\260\153\135\333\225\333\60\360\71\355\37\374\226\136\124\126"
-  "\166\352\217\244\336\306\364\236\111\317\277\207\320\322\314\304\40\104\102\146\172\366\254\316\155\340\140\6\105\24\151\352"
-  "\362\320\270\21\113\100\314\52\271\165\305\202\362\150\165\47\212\100\53\142\165\116\356\257\211\201\167\210\242\341\352\216"
-  "\321\246\152\32\373\252\42\340\335\252\150\270\352\225\66\125\313\334\127\25\1\357\126\105\303\125\107\51\125\2\102\256"
-  "\277\376\346\363\257\56\117\335\325\161\320\124\331\136\20\17\302\120\306\11\77\213\331\152\135\174\202\26\200\55\112\251"
-  "\35\73\5\230\41\165\200\153\2\352\315\155\353\30\226\316\102\10\323\257\304\352\350\46\51\323\330\131\12\141\372\245"
-  "\130\155\334\44\145\231\73\113\41\114\277\224\266\336\325\17\150\67\337\307\174\256\267\6\231\146\345\373\323\113\317\135"
-  "\275\360\302\13\321\175\372\74\74\50\112\311\166\142\240\125\61\164\264\25\263\170\215\361\232\342\65\307\353\101\274\226"
-  "\170\135\307\353\46\136\57\213\315\152\50\226\203\230\16\142\73\210\261\220\170\353\211\107\257\142\104\276\376\360\323\363"
-  "\153\17\311\75\167\65\54\157\74\375\123\17\370\137\212\17\212\244\1\167\343\203\173\6\10\177\150\200\320\77\102\366"
-  "\272\61\27\320\260\160\204\362\27\327\225\0\135\333\153\314\226\370\250\322\30\26\121\176\123\25\136\116\72\371\205\322"
-  "\204\373\211\302\116\121\360\250\262\27\256\71\121\323\230\104\345\367\3\275\37\351\375\124\221\71\231\313\336\242\114\225"
-  "\253\151\24\125\263\122\125\316\15\341\202\145\200\165\200\205\340\176\112\320\250\4\16\51\264\326\315\11\131\346\244\44"
-  "\277\37\14\272\202\154\57\236\231\251\212\365\62\13\301\61\23\54\307\230\160\300\314\260\233\32\52\324\320\312\55\120"
-  "\66\102\174\146\375\255\0\350\323\360\273\117\43\175\332\131\3\241\261\6\304\217\257\10\202\4\206\365\54\63\351\251"
-  "\104\273\374\365\120\124\140\46\200\230\353\14\324\236\31\322\266\344\355\104\130\46\244\370\24\61\342\340\247\364\163\103"
-  "\244\321\376\277\274\327\243\74\301\117\27\66\135\364\244\313\223\36\5\167\130\134\164\31\204\350\252\111\325\23\105\205"
-  "\210\35\274\140\363\202\217\227\236\325\50\134\323\350\242\305\40\52\134\324\371\265\20\51\24\354\340\2\233\13\114\56"
-  "\366\334\302\141\131\146\37\25\2\41\52\172\252\61\3\242\306\143\7\13\330\54\320\302\42\250\200\322\154\320\116\43"
-  "\330\171\11\166\136\354\333\75\223\161\307\104\301\20\31\63\46\352\16\236\13\303\334\255\141\273\203\332\223\315\253\320"
-  "\325\354\205\325\354\351\150\147\336\205\251\12\114\227\260\135\242\301\147\202\46\366\227\357\277\371\352\160\372\46\255\325"
-  "\323\326\224\153\211\156\140\11\210\20\134\135\12\301\204\316\374\170\300\273\137\107\173\242\12\346\212\216\134\141\163\105"
-  "\63\131\44\262\146\365\174\165\211\261\77\135\212\134\363\336\301\261\235\265\102\25\326\2\165\244\52\310\274\157\75\60"
-  "\177\36\273\262\227\261\146\61\126\4\300\257\0\116\5\330\45\201\147\170\176\100\260\132\230\14\165\13\17\113\366\57"
-  "\166\225\36\46\50\154\72\205\355\24\55\136\223\15\51\350\325\306\32\213\332\170\130\70\101\314\260\322\307\304\26\35"
-  "\331\302\146\213\106\272\225\116\26\353\132\47\47\165\107\147\224\35\215\240\113\302\321\313\15\22\260\103\3\234\32\340"
-  "\25\241\237\142\371\371\325\352\146\62\74\154\374\221\164\265\253\164\63\101\141\323\51\154\247\150\361\232\154\110\101\257"
-  "\156\326\130\324\315\323\310\31\142\206\74\102\365\62\161\105\107\256\260\271\302\111\326\256\240\112\47\47\155\107\147\204"
-  "\35\135\240\313\301\321\311\15\22\260\103\3\234\32\340\25\241\27\136\274\344\262\72\231\14\165\47\57\163\366\57\166"
-  "\225\116\46\50\154\72\205\355\24\55\136\223\15\51\350\325\311\32\213\72\171\231\71\103\314\160\263\223\211\53\72\162"
-  "\205\315\25\116\262\166\5\125\72\71\151\73\72\43\354\350\2\135\16\216\116\156\220\200\35\32\340\324\200\175\42\150"
-  "\301\317\213\164\173\202\14\346\4\231\107\46\16\241\74\103\146\53\302\353\124\255\301\234\167\62\67\125\256\301\61\361"
-  "\204\372\135\233\344\35\235\304\35\311\56\105\332\221\155\272\63\12\222\165\23\45\123\43\333\124\161\241\174\27\315\126"
-  "\204\327\53\333\346\275\51\163\323\331\166\334\234\102\275\263\111\236\47\333\316\326\56\106\332\312\266\271\207\361\351\341"
-  "\343\313\326\261\7\115\224\7\366\374\233\275\261\5\322\363\207\377\35\171\361\122\223\113\232\236\273\172\230\260\131\336"
-  "\115\153\22\345\335\232\316\121\336\255\331\35\344\335\232\354\227\342\73\111\375\313\361\125\140\343\77\251\206\233\370\121"
-  "\52\343\72\276\56\122\51\361\125\52\106\34\10\276\300\13\272\200\13\266\100\13\262\0\13\356\113\326\176\126\252\311"
-  "\355\103\52\326\236\125\377\162\66\366\303\172\376\360\277\43\67\336\337\277\234\151\373\110\152\162\363\104\221\256\146\36"
-  "\331\166\266\306\330\256\352\370\103\167\107\12\57\145\265\157\16\220\43\151\37\201\262\262\200\135\131\200\226\332\361\7"
-  "\166\324\37\257\177\26\170\373\105\42\351\74\262\245\323\302\140\306\31\26\153\307\307\371\275\102\113\261\361\126\140\246"
-  "\353\75\350\145\350\107\223\176\150\235\316\357\65\232\127\77\55\330\205\256\165\72\314\134\345\223\306\254\315\330\3\120"
-  "\173\121\265\254\144\7\366\321\60\143\345\156\363\202\301\13\355\274\102\116\356\336\143\141\306\22\264\136\61\172\241\352"
-  "\375\136\243\355\252\230\220\203\274\161\224\254\250\163\63\73\301\310\116\260\263\143\255\267\56\137\322\162\61\275\73\376"
-  "\312\231\35\150\6\24\304\100\24\375\324\52\142\140\55\325\67\377\137\101\120\372\114\157\0\10\216\301\145\355\353\53"
-  "\253\317\77\137\137\200\177\374\137\177\315\223\357\25\160\13\1\156\41\300\255\10\70\17\0\364\71\2\234\347\343\73"
-  "\374\173\3\202\227\4\307\25\304\126\20\43\50\254\300\10\136\22\362\12\247\320\12\247\20\341\124\134\1\20\274\44"
-  "\344\25\304\126\20\43\50\257\0\10\136\21\176\257\360\362\336\1\155\354\163\320\306\76\17\155\354\23\320\306\71\47"
-  "\200\133\11\0\332\70\347\4\220\332\310\10\136\22\34\127\20\133\101\214\220\332\310\10\136\22\342\12\240\215\163\16"
-  "\10\261\215\214\340\45\41\257\40\266\202\20\41\266\221\21\274\40\204\66\316\3\22\264\261\317\101\33\373\74\264\261"
-  "\117\100\33\347\234\0\156\45\0\150\343\234\3\100\154\43\43\170\111\160\134\101\154\5\41\102\154\43\43\170\111\210"
-  "\53\200\66\316\71\40\304\66\62\202\227\204\274\202\330\12\102\204\330\106\106\360\206\220\333\330\17\160\320\306\76\7"
-  "\155\354\363\320\306\76\1\155\234\163\2\270\225\0\240\215\163\116\0\335\306\110\20\43\210\21\364\37\302\371\141\345"
-  "\214\222\133\65\202\50\272\236\254\112\205\155\160\124\301\302\1\332\121\262\372\114\143\373\246\62\117\314\321\105\376\313"
-  "\307\151\365\171\15\124\337\51\160\234\313\220\270\67\205\376\236\51\170\12\257\226\102\365\110\336\220\30\274\254\60\170"
-  "\131\141\340\254\60\130\131\101\270\41\0\131\141\260\26\265\160\113\140\134\101\300\330\221\302\35\201\127\20\60\326\223"
-  "\160\157\2\160\11\214\315\40\334\233\100\337\176\16\274\275\40\374\116\5\336\13\203\267\27\204\33\2\360\34\170\173"
-  "\101\270\41\0\317\201\267\25\204\33\2\360\34\170\73\101\270\41\0\317\201\267\21\204\73\2\360\34\154\377\175\231"
-  "\126\51\334\152\54\250\253\273\126\377\227\235\302\350\253\270\133\215\272\313\13\376\133\53\234\377\255\352\136\360\172\330"
-  "\265\300\64\33\375\223\66\332\117\63\165\277\172\355\257\136\377\53\12\344\100\363\62\242\103\135\341\150\174\126\124\46"
-  "\117\323\64\376\357\127\377\76\255\163\364\174\327\211\354\262\175\376\314\315\33\357\33\153\336\175\117\347\165\351\307\376"
-  "\371\326\0\364\137\157\335\362\307\236\215\176\41\7\222\65\11\67\306\162\153\74\372\211\242\252\337\150\276\20\354\236"
-  "\226\346\234\104\351\361\334\375\353\325\2\225\266\315\167\177\257\334\53\51\356\125\240\354\125\337\1\362\35\107\276\5"
-  "\204\266\356\1\165\374\346\366\377\130\151\343\362\52\346\320\271\263\310\156\367\117\220\324\374\13\155\217\367\175\172\177"
-  "\276\254\324\130\40\17\371\223\153\67\135\176\37\325\121\37\200\354\35\72\124\161\55\367\56\376\355\217\74\112\305\157"
-  "\133\111\323\143\266\75\146\333\143\76\55\15\223\260\115\342\1\223\300\231\164\57\274\20\53\336\172\257\126\170\174\271"
-  "\130\230\323\322\255\216\207\152\114\227\254\341\167\215\246\121\74\154\24\70\243\45\236\320\246\346\35\223\302\337\343\340"
-  "\136\47\325\230\56\174\235\16\30\305\303\106\174\235\336\316\27\264\251\171\307\244\360\74\27\303\42\16\133\4\317\242"
-  "\273\242\105\315\73\26\205\347\131\30\26\161\330\42\320\242\373\170\345\350\135\27\130\36\131\160\317\67\14\20\347\104"
-  "\101\234\113\250\31\347\22\340\70\47\212\172\355\305\71\371\122\234\23\112\161\116\35\71\316\155\34\306\71\221\34\347"
-  "\324\34\343\134\102\106\262\122\205\223\254\262\202\222\125\62\126\236\121\205\355\1\311\312\66\211\7\114\202\146\342\44"
-  "\53\361\316\133\171\110\126\311\130\71\246\252\161\135\170\143\37\60\212\207\215\202\146\144\44\53\361\226\111\341\311\301"
-  "\312\61\125\215\353\302\327\311\67\252\152\176\172\72\157\61\242\107\305\133\16\205\47\7\43\121\211\367\34\50\327\231"
-  "\26\161\324\202\237\30\43\121\211\367\54\50\327\231\26\161\330\42\310\302\312\165\52\260\74\224\353\340\373\53\310\165"
-  "\242\40\327\45\324\314\165\11\140\256\23\205\275\366\162\235\174\61\327\11\205\134\247\216\234\353\66\216\163\235\110\316"
-  "\165\152\116\271\56\41\43\327\251\302\311\165\131\101\271\56\31\53\115\251\302\366\200\134\147\233\304\3\46\101\63\61"
-  "\162\235\170\353\213\42\310\165\311\30\231\105\274\345\120\170\162\60\266\262\170\313\241\360\344\140\354\103\361\216\3\157"
-  "\145\323\42\16\133\4\315\302\330\207\342\35\13\336\312\246\105\34\266\340\131\274\114\353\147\366\260\46\242\52\313\110"
-  "\125\247\205\77\4\204\45\55\12\226\164\102\315\45\235\0\56\151\121\334\153\147\111\313\227\226\264\120\132\322\352\310"
-  "\113\172\343\160\111\213\344\45\255\346\270\244\23\162\226\264\52\214\45\235\25\264\244\223\261\126\243\52\74\17\136\322"
-  "\266\111\74\140\22\64\23\143\111\213\167\76\163\244\45\235\214\261\244\305\133\16\205\47\7\143\111\213\267\34\12\17"
-  "\137\173\302\311\104\24\236\114\6\72\231\14\160\62\251\50\356\125\240\166\257\345\317\171\205\146\302\260\133\122\355\166"
-  "\317\375\171\204\166\302\260\135\122\355\166\303\70\115\63\364\23\307\15\67\254\335\161\235\343\362\14\35\305\161\307\15"
-  "\243\273\245\233\373\205\57\242\110\356\372\5\66\372\132\207\10\361\306\307\247\164\210\30\314\103\204\170\313\241\360\340"
-  "\340\34\42\304\133\16\205\107\207\227\363\207\343\220\274\345\120\170\160\160\216\20\342\55\207\302\203\203\23\335\305\133"
-  "\16\205\107\207\167\143\20\52\260\54\262\200\65\214\131\250\300\322\310\2\376\76\34\66\247\50\330\234\164\134\30\340"
-  "\270\120\121\334\253\100\355\136\274\71\205\161\267\244\332\355\170\163\12\343\166\111\65\333\301\346\254\70\154\10\233\63"
-  "\21\330\234\25\207\35\141\163\46\302\233\263\46\271\53\155\116\63\331\213\267\76\127\207\315\151\46\173\361\226\3\154"
-  "\116\63\331\213\267\34\12\117\16\306\346\24\157\71\24\236\34\214\315\51\336\162\50\74\71\30\233\123\274\345\120\170"
-  "\162\260\66\247\12\54\213\54\140\15\143\26\52\60\65\140\163\236\377\73\43\344\353\350\317\15\315\57\161\352\12\176"
-  "\163\125\25\234\166\367\153\330\106\361\63\106\1\7\312\351\362\321\317\353\351\214\76\267\170\76\142\12\327\164\330\45"
-  "\114\227\70\342\22\20\27\276\340\161\372\13\146\323\252\341\40\121\227\150\106\354\5\163\152\325\370\136\232\27\77\153"
-  "\133\317\177\372\171\332\125\203\62\274\307\353\252\145\253\203\107\317\25\214\37\24\214\206\240\316\224\375\333\264\366\154"
-  "\327\256\301\247\340\227\222\366\375\366\76\117\33\377\57\155\127\260\223\100\14\104\177\145\116\46\350\145\73\235\166\127"
-  "\303\47\160\365\114\142\4\17\162\63\44\36\374\170\333\370\32\337\116\330\272\41\302\245\217\171\363\72\355\114\3\44"
-  "\320\241\34\204\356\153\126\117\263\342\274\171\211\361\252\336\117\347\267\303\223\354\367\263\153\31\347\343\361\164\220\237"
-  "\350\257\362\162\50\322\331\202\56\170\343\266\323\177\66\320\336\57\206\251\264\224\155\227\126\215\42\167\62\174\36\237"
-  "\167\273\215\154\267\222\207\215\174\111\41\102\261\63\221\62\10\165\212\244\40\242\43\154\252\4\72\75\127\7\363\16"
-  "\6\145\162\261\154\0\221\235\42\146\20\243\47\324\305\232\234\203\116\120\76\272\130\152\40\302\340\24\103\43\302\234"
-  "\10\331\305\12\352\34\264\51\343\234\220\251\21\346\10\153\104\372\45\352\303\237\175\137\316\213\67\365\372\375\333\173"
-  "\177\135\275\320\341\375\366\47\365\246\121\72\277\25\273\56\215\143\77\213\335\306\342\353\267\127\246\371\73\77\45\350"
-  "\346\136\333\50\17\22\52\16\325\206\43\212\247\215\122\270\53\331\42\154\221\154\66\237\302\210\112\160\117\144\313\260"
-  "\145\262\215\363\51\106\120\235\167\352\353\312\21\373\345\350\266\262\356\225\143\145\366\255\215\330\167\303\274\167\230\42"
-  "\212\143\30\233\244\141\45\34\111\256\220\50\44\204\225\160\104\21\215\244\221\44\300\112\70\166\276\235\133\127\15\302"
-  "\141\271\20\235\126\323\27\153\260\62\367\123\33\51\367\223\313\75\114\221\150\43\234\10\147\302\43\115\21\20\51\120"
-  "\44\140\45\34\11\33\313\51\22\160\46\74\326\32\320\207\203\345\75\177\254\275\155\3\231\174\227\162\6\50\21\303"
-  "\100\24\75\223\200\7\132\160\161\13\272\152\365\123\331\323\353\22\200\341\21\376\370\315\1\36\175\363\123\222\244\114"
-  "\332\364\174\214\107\34\333\355\226\374\107\266\60\321\55\265\301\374\301\350\172\332\367\267\43\152\221\231\200\211\133\5"
-  "\175\33\121\56\10\160\135\260\357\201\36\317\301\351\320\13\116\300\250\17\270\202\76\301\134\220\340\272\140\237\340\371"
-  "\373\353\174\175\32\207\314\373\10\330\263\305\34\351\57\215\221\250\47\154\43\165\331\236\57\201\25\230\136\213\210\361"
-  "\22\53\227\325\62\110\36\226\214\24\12\17\254\300\344\141\65\237\43\112\345\230\100\240\145\220\376\224\117\202\43\110"
-  "\251\132\105\140\5\246\327\2\142\274\304\312\145\265\14\222\207\45\43\205\302\3\53\60\171\130\364\342\206\155\0\375"
-  "\167\101\207\264\275\226\44\312\10\132\255\121\107\340\5\246\27\43\142\336\55\326\56\253\145\220\74\56\31\51\24\36"
-  "\130\201\371\107\130\152\227\236\373\245\305\367\323\266\37\333\347\331\56\77\206\13\226\40\142\375\62\104\110\326\321\160"
-  "\13\216\375\354\17\310\314\37\206\13\46\134\142\375\244\113\110\336\321\160\13\216\375\373\370\252\27\354\317\334\46\322"
-  "\301\321\106\222\60\166\273\106\26\373\266\300\26\164\246\13\332\372\212\371\50\320\235\300\313\341\312\312\62\236\330\26"
-  "\364\172\270\375\355\217\122\142\164\302\45\234\337\5\41\214\67\301\310\216\2\163\133\322\241\56\150\353\53\346\243\100"
-  "\167\2\57\207\53\53\313\170\142\133\320\353\341\252\155\327\57\45\46\7\367\71\34\65\362\23\356\177\44\135\343\311"
-  "\155\111\307\272\240\255\257\230\217\2\335\11\274\34\256\254\54\343\211\155\101\257\207\333\177\315\371\170\170\374\145\366"
-  "\350\57\26\340\242\165\241\160\165\350\177\0";
+/* lib/include/wasm_simd128.h (DEFLATEd, org. size 43261) */
+static unsigned char file_l_37[4547] =
+  "\355\135\353\217\333\306\21\377\356\277\202\100\200\342\344\310\316\351\161\72\245\165\122\4\155\76\4\160\122\64\217\366"
+  "\113\1\201\167\307\245\205\360\44\235\250\261\25\267\376\337\273\57\222\113\162\167\147\206\342\25\50\20\303\302\361\304"
+  "\171\374\146\146\167\146\226\134\362\276\170\231\274\175\373\217\357\137\225\247\337\212\54\371\347\67\77\175\237\374\364\335"
+  "\367\177\235\315\327\311\313\57\136\274\370\354\160\114\363\307\64\331\357\356\263\27\57\276\170\231\274\227\147\66\247\144"
+  "\133\46\167\260\55\116\257\266\73\105\367\331\166\167\137\300\103\226\274\51\117\17\333\335\351\365\273\257\135\352\17\151"
+  "\371\270\321\307\305\76\175\270\272\337\357\312\123\362\176\277\175\110\136\36\46\177\322\2\36\62\261\335\145\135\312\303"
+  "\44\271\272\62\102\256\136\116\34\306\227\223\211\244\324\247\136\53\312\144\57\104\231\235\276\272\116\322\142\233\357\276"
+  "\232\255\46\222\171\22\6\261\336\224\207\42\75\321\261\124\14\144\110\226\241\207\14\1\66\133\161\221\325\34\144\150"
+  "\25\107\27\333\34\301\266\230\163\261\325\34\144\154\25\107\27\333\22\301\266\132\162\261\325\34\144\154\25\107\27\333"
+  "\332\217\155\73\133\235\355\340\71\257\121\134\155\152\372\60\223\114\45\161\220\1\13\20\14\7\4\104\100\333\305\374"
+  "\274\264\203\370\274\304\135\324\46\147\214\167\311\126\22\107\73\360\60\301\45\230\200\210\151\273\132\236\347\166\102\235"
+  "\347\270\237\332\344\214\271\47\331\112\342\314\3\36\46\270\4\23\160\263\201\314\42\37\263\343\276\207\352\325\253\104"
+  "\235\56\223\42\225\300\256\145\135\53\176\373\163\64\175\151\61\234\354\245\30\6\44\257\61\340\126\142\70\11\315\7"
+  "\167\215\26\117\205\247\215\166\132\221\276\237\46\262\3\110\266\223\144\263\371\361\333\277\377\362\335\217\337\156\376\362"
+  "\267\37\176\372\371\233\37\176\276\332\306\113\254\26\253\104\115\25\177\300\206\112\123\257\336\152\47\165\23\217\24\244"
+  "\45\42\65\367\131\14\252\344\16\264\310\262\367\162\4\305\44\71\20\237\305\244\112\356\100\223\54\173\157\176\120\114"
+  "\222\203\365\131\114\252\344\16\64\311\262\367\346\120\327\44\205\267\121\134\236\366\307\354\252\153\104\32\302\151\310\45"
+  "\141\252\341\111\66\5\56\4\113\123\173\133\142\45\40\214\307\116\300\161\134\353\112\164\135\113\301\116\234\313\36\23"
+  "\252\51\67\242\15\276\131\114\61\202\72\175\75\126\124\263\154\104\53\174\23\227\142\5\165\306\172\254\250\46\326\210"
+  "\126\370\346\52\305\12\312\44\355\65\135\353\263\14\241\116\0\127\22\257\372\376\376\172\232\274\176\375\132\343\327\277"
+  "\317\156\274\106\324\164\212\300\323\237\71\222\25\351\375\114\176\346\362\263\220\237\245\374\334\310\317\112\176\156\345\147"
+  "\55\77\137\52\32\115\250\50\147\212\164\246\150\147\113\243\42\371\327\213\104\272\242\334\76\76\274\61\320\246\311\154"
+  "\365\365\344\337\143\110\377\344\351\375\34\3\240\353\33\270\314\71\360\234\316\201\377\205\167\314\112\256\36\70\322\232"
+  "\366\310\61\137\334\42\316\271\15\256\21\51\276\351\16\11\245\163\232\254\121\243\77\205\126\215\115\260\333\366\300\105"
+  "\6\301\60\203\340\62\213\314\72\262\16\220\114\161\306\240\372\170\346\34\317\235\343\5\142\342\42\270\150\365\231\330"
+  "\215\221\322\61\115\226\75\213\76\205\26\251\115\114\152\23\300\265\1\134\43\340\42\53\200\146\5\360\314\60\13\325"
+  "\72\20\62\113\327\201\60\307\263\40\124\171\52\264\360\165\121\166\175\254\304\116\223\171\15\356\123\150\141\333\370\266"
+  "\106\5\103\141\101\34\26\320\160\11\47\4\102\166\236\115\320\235\337\146\255\337\346\255\337\206\304\135\320\342\136\153"
+  "\41\6\136\70\36\321\274\265\223\235\337\102\136\366\177\355\163\274\210\73\276\326\325\365\174\244\25\260\327\14\253\32"
+  "\347\307\22\257\371\325\205\112\331\275\364\333\1\11\201\376\177\22\55\315\126\17\260\261\102\30\53\214\211\325\51\147"
+  "\215\133\115\61\241\373\265\47\243\361\253\133\134\310\376\353\311\3\76\50\10\203\202\41\240\234\32\322\70\312\114\152"
+  "\272\243\172\62\32\107\271\223\74\352\234\236\14\340\3\201\60\20\240\2\161\22\175\343\20\223\65\350\16\351\311\150"
+  "\34\342\346\215\200\53\172\334\300\207\0\141\10\200\103\20\75\107\72\311\236\214\101\204\303\41\250\341\20\75\73\234"
+  "\64\116\107\22\366\206\300\275\141\262\150\53\73\247\301\74\154\310\322\366\265\36\303\145\226\216\232\354\265\46\233\134"
+  "\245\301\74\333\316\260\151\60\227\172\365\1\252\320\312\165\200\147\347\323\61\275\77\331\205\265\275\152\304\135\117\173"
+  "\104\245\166\65\155\64\352\365\264\263\220\66\340\134\206\115\251\226\316\25\116\160\201\302\170\100\41\14\24\310\110\301"
+  "\105\332\37\61\307\114\372\374\76\363\2\255\27\372\167\114\337\266\204\52\151\123\45\302\15\276\71\252\24\270\340\135"
+  "\136\15\135\361\206\6\140\34\75\260\341\3\23\76\14\306\157\252\163\273\354\247\301\2\37\232\260\212\315\52\127\164"
+  "\321\31\353\10\202\230\106\10\153\4\134\145\45\331\1\77\316\244\355\213\162\46\255\122\331\233\13\32\136\174\326\66"
+  "\120\141\74\250\20\206\12\164\254\341\171\253\305\243\363\126\233\166\307\364\57\153\342\166\107\2\165\346\22\360\3\337"
+  "\0\140\32\0\303\55\60\15\143\273\23\115\203\75\147\150\356\52\66\253\134\321\105\347\256\43\10\142\32\41\254\21"
+  "\160\225\225\144\7\374\70\163\267\57\312\231\273\112\145\157\76\150\170\56\107\167\346\66\100\141\74\240\20\6\12\203"
+  "\220\366\107\15\72\157\265\141\167\114\337\262\346\155\167\24\120\347\55\1\77\360\15\0\246\1\60\334\2\263\256\151"
+  "\57\230\322\340\322\50\64\157\25\233\125\256\350\242\363\326\21\4\61\215\20\326\10\270\312\112\262\3\176\234\171\333"
+  "\27\345\314\133\245\262\67\33\64\274\330\274\155\200\302\170\100\41\14\24\6\41\355\217\32\164\336\152\303\356\230\276"
+  "\145\315\333\356\50\240\316\133\2\176\340\33\0\114\3\140\270\5\302\251\152\315\32\77\15\256\346\275\363\250\146\64"
+  "\0\204\257\0\66\302\35\151\243\214\120\21\256\54\265\322\356\20\25\344\322\42\10\251\271\261\355\216\211\232\36\143"
+  "\257\217\251\101\166\122\140\163\371\44\15\136\50\11\7\271\31\145\302\227\55\33\341\216\264\161\202\34\116\103\265\322"
+  "\136\220\311\171\110\20\346\161\143\333\35\23\65\63\310\135\37\207\202\354\277\350\360\230\376\232\305\66\25\204\256\53"
+  "\150\276\21\357\212\7\56\131\214\171\342\167\75\54\161\366\302\247\214\320\64\61\261\132\252\43\35\272\205\72\322\221"
+  "\234\253\43\35\330\231\72\322\161\276\226\107\52\352\137\312\237\112\152\222\250\161\260\226\277\335\352\33\350\323\104\215"
+  "\217\225\374\251\306\212\222\257\304\53\351\13\175\77\157\232\50\321\132\262\276\123\66\115\224\330\353\340\245\47\75\26"
+  "\243\273\77\102\227\227\236\145\24\103\310\351\243\234\370\135\17\113\334\377\303\50\66\27\174\252\114\34\334\245\23\272"
+  "\122\104\30\304\255\44\333\273\72\63\346\211\221\365\164\305\331\160\216\232\103\32\47\306\67\25\205\56\164\61\375\17"
+  "\41\363\107\71\61\262\236\256\270\147\360\277\271\154\122\215\176\316\26\250\320\45\30\117\100\132\23\240\337\112\63\277"
+  "\357\11\263\156\141\15\273\6\352\200\175\123\241\213\67\210\351\20\60\221\376\175\117\330\0\323\315\202\273\212\270\157"
+  "\257\125\150\221\356\230\327\212\150\277\157\356\135\75\212\7\243\221\36\334\150\25\132\167\7\60\101\0\23\120\61\211"
+  "\46\240\3\67\131\205\126\221\310\40\21\201\301\100\377\276\47\154\300\40\21\215\163\43\373\262\102\153\250\100\120\104"
+  "\40\50\42\30\24\377\252\51\173\162\26\174\366\350\56\174\177\373\311\54\302\274\153\70\317\75\343\247\360\145\123\55"
+  "\257\265\334\104\265\233\105\44\131\373\56\103\264\27\47\216\166\111\315\321\136\234\66\45\162\243\231\252\37\6\352\7"
+  "\304\376\234\145\177\316\323\237\343\366\347\54\373\371\372\61\373\13\326\350\53\170\243\257\310\360\370\147\254\370\263\365"
+  "\243\361\147\331\237\363\364\347\270\375\71\313\176\276\176\210\134\62\62\267\323\251\311\257\242\46\2\60\67\336\237\220"
+  "\175\32\344\344\127\121\163\264\307\222\237\171\10\375\304\321\116\117\76\132\173\74\371\261\364\303\100\375\200\330\237\263"
+  "\354\317\171\372\163\334\376\234\145\77\137\77\146\177\301\32\175\5\157\364\305\223\37\113\77\14\324\217\306\237\145\177"
+  "\316\323\237\343\366\347\54\373\371\372\143\311\317\334\67\242\46\277\212\232\10\300\334\140\172\102\66\272\220\223\137\105"
+  "\315\321\36\113\176\346\335\22\47\216\166\172\362\321\332\343\311\217\245\37\6\352\7\304\376\234\145\177\316\323\237\343"
+  "\366\347\54\373\371\372\61\373\13\326\350\53\170\243\57\236\374\130\372\141\240\176\64\376\54\373\163\236\376\34\267\77"
+  "\147\331\317\327\37\113\176\346\176\52\65\371\125\324\104\0\346\306\353\23\262\133\210\234\374\52\152\216\366\130\362\63"
+  "\57\214\71\161\264\323\223\217\326\36\115\176\106\142\316\322\237\363\364\347\270\376\202\345\375\202\347\375\350\344\267\26"
+  "\261\364\347\74\375\355\311\347\277\22\107\35\374\202\127\371\5\126\371\5\253\362\13\136\345\27\130\345\27\254\312\53"
+  "\170\225\127\330\312\213\150\317\131\332\163\236\366\34\323\136\260\74\137\360\74\137\140\236\317\131\332\163\236\366\74\213"
+  "\14\172\126\306\27\274\214\57\260\214\57\130\31\137\360\62\276\300\62\276\140\145\174\301\313\370\302\146\174\104\173\316"
+  "\322\236\363\264\347\230\366\202\345\371\202\347\371\2\363\174\316\322\236\363\264\307\6\275\76\336\355\33\327\207\336\1"
+  "\243\150\122\237\106\347\175\57\222\306\277\175\114\37\247\273\7\232\221\65\65\315\110\255\132\222\7\135\254\217\367\107"
+  "\206\162\111\314\320\275\77\306\125\237\131\272\317\74\345\147\114\273\364\214\33\137\222\347\165\260\131\316\67\241\157\140"
+  "\334\355\367\105\113\346\157\233\323\21\62\164\230\325\204\172\254\51\51\336\221\126\221\105\206\333\335\366\124\146\105\166"
+  "\357\63\275\76\172\114\313\137\103\120\32\1\312\256\251\241\215\70\304\343\230\132\304\304\225\21\274\311\226\336\225\61"
+  "\7\65\104\221\211\150\256\152\113\242\330\203\227\273\54\307\25\51\42\124\221\44\152\24\65\101\267\120\213\2\215\172"
+  "\207\62\30\166\153\227\245\13\75\217\143\244\111\267\53\107\343\152\53\302\64\372\224\215\326\154\111\143\136\75\354\17"
+  "\367\273\23\256\325\322\241\276\65\164\61\215\345\273\302\31\335\316\3\60\301\207\257\45\303\131\275\164\213\362\170\213"
+  "\171\54\372\135\61\61\54\141\20\107\56\210\43\33\304\121\55\127\2\60\200\13\3\56\200\1\210\67\322\207\7\316"
+  "\335\62\105\316\271\135\45\351\221\273\165\222\142\123\246\47\46\10\315\302\4\242\170\320\233\167\54\70\160\61\34\354"
+  "\136\146\11\167\34\317\50\162\16\14\111\217\3\340\206\247\142\141\2\41\205\207\5\7\56\206\203\205\347\161\273\343"
+  "\170\106\221\163\140\110\172\324\43\144\10\60\30\2\352\205\364\314\362\202\44\147\101\110\317\270\27\250\20\140\60\4"
+  "\300\62\307\373\374\310\112\33\212\236\225\63\44\3\176\363\37\153\312\152\242\130\75\327\167\333\302\115\231\275\163\237"
+  "\343\212\260\246\314\336\324\367\67\145\6\52\245\51\153\123\206\233\62\143\27\326\224\151\151\224\246\254\105\30\157\312"
+  "\264\346\170\123\146\366\357\62\132\244\232\201\334\26\230\267\120\304\132\44\53\363\310\5\161\144\203\210\266\110\134\30"
+  "\160\1\14\100\274\101\157\221\152\162\316\115\355\150\213\124\111\144\324\340\26\13\23\10\126\203\371\160\340\142\70\330"
+  "\216\7\172\213\124\223\163\140\104\133\244\112\42\67\74\314\236\244\2\102\12\17\257\105\272\30\16\26\236\107\50\70"
+  "\236\121\344\34\30\222\36\3\100\356\321\152\162\26\200\170\217\306\203\0\203\41\240\141\40\367\150\65\71\13\102\274"
+  "\107\343\101\200\301\20\0\113\135\364\36\255\241\147\45\55\254\107\323\167\201\260\36\255\46\212\265\116\372\6\121\270"
+  "\107\263\267\31\163\134\21\326\243\331\73\220\376\36\315\100\245\364\150\155\312\160\217\146\354\302\172\64\55\215\322\243"
+  "\265\10\123\374\365\64\361\36\315\74\54\301\350\321\152\6\162\137\142\136\266\20\353\321\254\314\43\27\304\221\15\42"
+  "\332\243\161\141\300\5\60\0\361\6\275\107\253\311\71\173\157\242\75\232\61\213\334\205\324\344\34\0\321\56\304\74"
+  "\63\104\256\263\65\71\7\100\264\316\32\211\344\72\133\223\263\0\304\353\54\17\2\14\206\200\155\101\243\327\331\232"
+  "\234\5\41\136\147\171\20\140\60\4\314\13\17\373\223\151\44\70\276\150\230\70\160\152\256\330\6\41\263\347\10\53"
+  "\273\65\121\254\32\352\133\324\341\262\153\67\72\344\270\42\254\354\332\75\20\376\262\153\240\122\312\156\233\62\134\166"
+  "\215\135\130\331\325\322\50\145\267\105\30\57\273\132\163\274\354\232\247\377\30\145\267\146\40\227\32\363\372\233\130\331"
+  "\265\62\217\134\20\107\66\210\150\331\345\302\200\13\140\0\342\15\172\331\255\311\71\273\376\242\145\327\230\105\56\273"
+  "\65\71\7\100\264\354\232\347\130\311\145\267\46\347\0\150\225\135\377\6\64\44\253\11\312\142\102\304\27\23\202\262"
+  "\230\20\224\305\204\350\57\46\74\157\57\173\72\236\160\115\232\12\125\245\250\142\272\356\263\155\201\353\322\124\250\56"
+  "\105\25\323\45\212\275\263\265\46\250\314\220\241\332\64\131\114\235\114\344\273\173\134\235\41\103\325\151\262\370\360\110"
+  "\217\131\171\242\14\21\103\110\30\46\232\60\246\224\234\200\4\263\357\27\150\337\57\170\175\277\140\366\375\2\355\373"
+  "\5\257\357\27\314\276\137\240\175\277\221\370\260\175\317\1\240\310\71\0\44\75\346\1\152\327\57\230\135\277\250\272"
+  "\176\14\0\265\341\26\314\206\133\124\15\67\2\340\300\164\301\201\353\203\3\356\204\3\323\13\7\256\33\16\55\77"
+  "\370\367\245\142\265\220\322\341\213\170\207\57\50\35\276\240\164\370\242\337\341\173\136\362\210\325\302\206\12\125\25\251"
+  "\205\346\217\146\140\265\260\241\102\165\105\152\241\226\202\327\102\207\14\325\26\253\205\132\16\136\13\35\62\124\135\254"
+  "\26\332\310\343\265\260\105\110\30\46\261\132\310\153\306\5\263\31\27\150\63\56\170\315\270\140\66\343\2\155\306\5"
+  "\257\31\27\314\146\134\364\233\161\57\0\172\55\254\311\71\0\242\265\320\230\104\56\4\65\71\313\3\261\62\140\337"
+  "\353\163\146\1\240\27\1\3\40\126\13\265\304\3\323\5\7\256\17\16\270\23\16\114\57\34\270\156\210\327\302\155"
+  "\323\327\353\133\264\272\176\342\67\111\272\14\350\75\241\16\303\246\214\375\105\6\6\34\30\7\16\104\327\175\373\335"
+  "\373\354\170\62\246\23\26\200\55\162\174\45\350\222\157\112\12\20\340\1\201\41\100\40\132\375\55\151\261\377\100\360"
+  "\112\200\5\357\13\272\54\233\222\12\12\370\240\140\50\50\210\335\377\163\6\232\326\370\61\73\356\131\323\253\341\342"
+  "\14\152\123\64\65\37\161\242\221\320\301\210\350\40\202\316\56\377\262\307\375\51\43\102\13\261\240\303\276\307\22\33"
+  "\143\207\343\136\123\253\350\13\332\30\353\263\240\143\254\307\322\100\372\265\200\74\373\143\262\331\264\36\72\0\41\212"
+  "\54\61\272\37\222\273\114\62\272\150\74\304\366\241\235\21\137\227\274\11\152\321\357\333\275\272\272\272\277\116\222\77"
+  "\44\327\147\361\313\333\267\223\344\315\233\144\165\75\111\376\43\317\334\317\344\367\356\211\233\225\75\61\357\160\334\314"
+  "\355\211\105\347\304\162\255\116\230\127\373\252\363\313\356\371\245\145\274\351\250\132\126\30\126\35\216\105\205\341\266\173"
+  "\142\336\126\265\356\234\237\257\55\343\227\35\125\363\12\303\354\272\303\121\373\141\326\76\61\133\265\125\315\346\235\363"
+  "\225\73\146\213\366\211\244\302\60\133\166\116\324\30\156\232\23\352\137\360\11\30\23\110\337\203\146\310\133\272\207\376"
+  "\5\373\347\33\241\317\253\44\274\103\166\210\13\157\61\17\336\106\166\330\122\155\153\336\146\34\366\215\372\323\310\57"
+  "\347\325\317\344\163\365\262\117\365\136\115\365\235\31\231\346\267\352\314\334\122\317\235\357\26\366\273\205\363\335\262\45"
+  "\141\351\234\271\261\324\67\316\167\53\373\335\312\371\356\266\45\341\326\236\211\354\202\31\22\207\5\26\207\105\144\27"
+  "\115\70\16\64\267\57\253\237\225\311\366\330\61\333\176\263\260\101\131\126\77\235\100\131\216\372\170\321\160\317\55\307"
+  "\334\341\230\73\34\163\107\372\102\323\126\234\13\207\143\341\160\330\343\105\344\256\50\55\14\115\62\11\107\40\362\166"
+  "\141\237\363\151\116\137\127\77\35\247\257\173\116\137\127\156\261\307\113\347\370\306\71\136\71\307\267\255\31\263\266\41"
+  "\131\73\241\132\73\241\132\73\141\265\32\134\356\112\317\314\321\143\217\157\225\363\353\342\37\66\267\44\77\343\144\73"
+  "\214\22\373\13\44\345\207\355\307\217\274\227\212\126\54\254\147\256\14\17\206\146\227\36\217\252\115\147\354\56\351\363"
+  "\261\336\267\353\60\242\317\41\361\321\301\210\350\260\115\300\25\161\253\311\245\274\244\323\345\143\275\256\323\141\104\367"
+  "\7\363\321\301\210\350\60\337\145\347\123\266\173\60\113\104\345\171\374\301\240\36\7\372\40\124\227\143\23\175\0\313"
+  "\122\277\333\346\357\230\220\34\26\52\246\206\45\170\231\247\153\64\140\230\2\34\174\67\1\1\221\66\200\7\311\141"
+  "\31\340\246\350\45\4\327\204\126\256\210\375\111\320\66\7\272\70\357\162\154\112\2\42\143\0\13\222\303\102\305\324"
+  "\260\304\57\32\272\143\3\303\24\340\340\273\11\10\210\314\320\140\101\162\130\6\270\11\142\73\343\134\23\320\153\275"
+  "\176\16\164\47\142\227\243\16\134\24\222\261\200\205\311\141\241\202\152\130\202\303\251\153\65\172\61\61\300\301\367\23"
+  "\20\20\231\261\301\202\344\260\14\160\23\40\205\105\75\174\167\110\267\307\17\333\62\143\24\27\17\33\45\163\366\331"
+  "\320\42\323\142\241\247\165\17\333\100\200\130\172\157\263\220\23\252\207\215\222\55\372\154\150\142\155\273\202\234\312\74"
+  "\154\3\1\142\143\360\21\12\117\273\105\171\243\175\227\227\365\176\373\16\163\354\275\227\256\66\117\33\106\207\352\66"
+  "\144\174\254\235\336\54\326\143\73\326\1\35\153\200\367\42\267\2\15\251\247\155\243\103\165\33\270\213\334\212\75\357"
+  "\340\132\307\175\354\241\307\313\172\41\171\207\71\66\132\135\155\236\66\217\16\325\155\370\370\130\73\275\137\354\111\26"
+  "\167\304\61\126\324\176\336\213\334\12\64\244\236\266\220\16\325\155\20\57\162\53\40\173\326\135\353\30\227\2\374\274"
+  "\254\67\110\167\230\321\167\12\267\154\33\10\325\355\47\371\130\73\255\145\354\317\206\273\43\216\161\15\303\317\173\221"
+  "\133\201\206\324\323\165\322\241\272\375\347\105\156\305\56\274\74\315\156\44\307\221\373\212\5\227\215\223\374\35\76\47"
+  "\342\377\5";
 
 /* lib/include/wchar.h (DEFLATEd, org. size 292) */
 static unsigned char file_l_38[159] =
@@ -3046,1317 +3072,1475 @@ static unsigned char file_l_38[159] =
   "\230\26\153\371\1\332\256\167\300\27\216\207\143\136\226\331\230\37\226\333\266\305\204\223\211\365\306\331\174\176\6\276"
   "\47\206\353\235\321\372\366\376\313\171\57\77\73\134\334\262\121\124\160\227\112\204\17\112\360\121\165\175\166\1";
 
-/* lib/math.wo (DEFLATEd, org. size 168538) */
-static unsigned char file_l_39[14260] =
-  "\214\126\167\163\333\76\26\374\373\332\167\340\351\122\344\124\200\115\200\123\310\364\344\327\173\335\73\5\65\126\42\121\12"
-  "\105\367\233\174\366\3\100\131\215\216\117\36\316\140\275\170\157\337\242\12\375\311\124\37\216\115\164\155\42\232\203\177"
-  "\374\65\212\372\243\311\154\132\67\121\117\325\115\57\352\315\147\327\172\121\377\335\170\52\305\70\272\346\270\175\307\104"
-  "\375\311\141\23\215\222\170\157\157\357\222\234\211\231\114\353\123\227\326\202\66\155\201\111\310\330\255\112\50\260\21\155"
-  "\115\165\324\363\115\55\106\163\143\116\224\231\65\56\321\36\126\52\272\346\73\367\67\272\242\376\114\324\142\262\356\124"
-  "\213\106\264\203\335\227\263\350\110\324\221\30\217\336\125\217\130\324\3\41\333\237\45\305\145\54\53\172\35\65\75\33"
-  "\36\134\255\327\371\112\220\4\222\301\304\227\353\215\167\325\313\241\11\224\175\6\43\141\365\127\217\273\152\177\230\172"
-  "\332\125\333\375\143\244\253\171\40\306\57\377\257\246\41\305\245\54\244\355\52\216\253\370\365\233\256\144\233\140\315\323"
-  "\173\60\171\321\141\76\47\365\325\267\233\122\107\17\117\63\30\313\141\304\243\65\14\251\273\351\337\357\264\65\154\12"
-  "\112\100\351\352\23\24\322\202\145\77\303\32\120\16\341\142\351\37\5\344\0\132\102\10\360\100\53\3\232\102\132\376"
-  "\203\367\317\162\50\1\145\241\311\343\273\120\11\232\312\47\130\15\46\40\115\327\335\117\233\356\324\317\376\17\72\53"
-  "\316\140\315\206\45\105\13\107\75\201\114\100\45\244\360\6\205\54\234\233\34\304\125\116\141\123\15\236\27\340\11\130"
-  "\132\301\160\230\344\6\130\134\364\101\222\137\240\70\172\223\111\1\232\201\45\355\244\103\61\150\371\153\1\102\15\154"
-  "\354\77\315\236\77\53\16\174\145\246\101\5\354\340\6\51\40\162\360\170\0\341\130\366\11\64\55\274\272\30\300\222"
-  "\30\304\102\62\320\270\230\377\370\326\251\101\311\103\330\4\322\100\247\147\220\266\231\335\202\225\227\354\344\121\65\152"
-  "\206\357\77\254\315\100\352\327\47\136\133\234\144\15\247\153\70\137\342\256\354\167\157\246\361\147\326\274\204\225\377\204"
-  "\345\33\33\371\356\363\346\361\372\361\0\147\57\141\331\303\45\367\366\173\50\165\362\140\43\206\205\125\260\204\257\264"
-  "\243\353\147\154\43\246\7\26\303\44\371\172\61\120\15\233\214\262\256\355\346\170\72\234\36\231\172\70\33\155\315\210"
-  "\253\145\71\204\237\227\347\337\124\136\304\252\75\320\314\43\115\177\305\315\0\164\12\353\51\31\326\300\327\172\10\316"
-  "\301\75\367\4\234\74\163\255\372\36\326\370\150\351\242\14\204\14\170\40\240\174\324\176\165\55\50\305\137\77\165\355"
-  "\33\220\34\46\170\156\140\304\275\140\136\201\307\320\324\143\43\101\165\53\267\7\111\135\137\140\331\143\210\101\360\230"
-  "\145\140\301\63\244\14\331\134\301\160\260\64\24\115\157\314\274\261\117\303\120\62\7\247\334\241\37\301\22\276\210\265"
-  "\151\100\114\16\333\234\76\54\207\324\101\233\201\332\260\40\332\300\132\360\120\221\70\300\100\262\340\224\336\207\261\36"
-  "\125\177\70\11\7\46\240\166\342\11\145\77\345\355\250\224\14\163\367\362\133\310\40\300\215\55\374\206\200\21\301\226"
-  "\24\270\171\350\201\311\140\44\224\17\172\164\16\113\203\207\1\7\151\323\342\37\300\104\340\344\7\230\200\250\205\244"
-  "\101\204\260\177\203\171\327\44\234\102\102\234\200\172\31\242\11\204\113\40\44\202\124\120\336\155\16\233\202\7\5\223"
-  "\100\160\120\237\371\37\1\116\133\55\120\11\23\354\263\14\234\33\217\4\1\115\207\201\323\345\101\150\11\64\203\265"
-  "\36\337\234\177\175\161\144\362\40\242\304\57\240\131\100\34\202\315\203\45\23\277\165\355\7\60\5\165\371\261\252\146"
-  "\243\151\74\74\70\336\332\234\213\3\25\332\246\374\57\64\7\215\333\163\106\171\171\366\36\324\266\154\257\204\224\260"
-  "\372\172\350\334\53\367\137\336\161\335\367\113\340\25\15\21\56\213\253\17\351\42\54\53\241\45\230\35\204\160\136\206"
-  "\113\57\335\167\151\17\313\77\240\331\43\227\134\224\137\175\52\275\300\223\162\14\112\236\6\231\247\45\230\202\210\237"
-  "\5\271\347\45\204\112\137\54\104\135\253\44\124\376\162\41\376\252\204\221\277\275\16\45\336\224\335\61\73\124\35\214"
-  "\66\57\223\157\41\245\0\311\336\71\141\150\135\200\262\273\317\177\12\3\66\274\0\227\260\71\30\205\216\101\344\34"
-  "\306\256\107\130\136\134\136\145\274\375\233\156\142\163\37\75\14\354\355\263\207\40\3\0\64\115\156\100\170\355\207\220"
-  "\32\112\302\222\63\60\346\172\147\133\41\234\76\274\244\314\117\133\45\352\345\217\15\124\12\43\301\31\70\137\174\212"
-  "\103\132\130\13\226\264\173\374\332\33\250\270\370\10\232\377\13\326\100\345\37\41\25\244\255\242\257\240\62\50\375\2"
-  "\162\120\114\300\105\3\141\141\143\110\2\231\100\332\357\37\101\23\10\142\121\103\322\302\105\300\152\150\363\303\335\160"
-  "\11\151\110\353\253\327\107\327\276\74\207\340\305\375\361\373\73\317\41\123\210\330\167\121\12\55\320\203\111\366\175\60"
-  "\47\213\51\14\157\305\305\330\354\114\215\305\174\76\262\247\121\337\234\264\57\314\25\327\306\107\27\157\310\153\47\221"
-  "\315\323\275\250\137\233\371\341\270\175\375\106\213\210\361\124\371\167\153\155\232\43\327\206\236\13\156\62\77\336\44\306"
-  "\333\304\160\350\304\274\162\20\363\175\367\324\264\232\67\121\332\22\41\354\336\334\64\27\5\326\351\167\236\76\11\214"
-  "\27\271\127\233\121\325\230\172\346\42\207\66\337\120\150\214\11\305\266\313\44\361\52\335\234\64\246\322\103\327\71\234"
-  "\257\330\371\101\75\74\134\245\35\327\142\66\164\174\307\236\33\153\307\233\53\330\311\354\332\32\167\62\203\332\266\125"
-  "\112\122\226\15\262\25\55\52\275\372\147\132\167\34\355\250\33\323\64\117\223\214\14\342\256\364\272\315\356\0\103\211"
-  "\256\205\225\64\131\21\346\343\2\333\116\375\53\127\332\214\347\146\207\121\354\126\52\331\275\324\116\23\266\113\115\322"
-  "\131\307\253\147\261\223\125\231\26\317\315\330\250\346\352\21\124\272\13\72\345\326\63\34\76\254\53\217\73\27\304\150"
-  "\156\375\163\323\254\256\207\13\346\177\355\175\151\167\342\270\323\357\127\231\363\114\356\332\207\34\355\226\357\362\362\356"
-  "\373\377\74\357\373\260\230\16\111\232\60\100\47\300\247\277\230\144\122\143\27\342\47\53\302\115\147\310\177\231\221\261"
-  "\245\252\122\355\52\111\121\312\41\136\116\351\207\127\334\113\45\275\167\336\350\102\251\302\10\253\45\11\51\161\146\344"
-  "\373\365\304\100\104\147\363\51\141\171\150\236\35\105\245\165\241\204\166\336\232\242\260\136\24\147\106\161\76\234\23\212"
-  "\207\146\167\25\377\143\103\272\72\115\7\327\175\364\62\335\263\151\3\21\6\61\7\303\130\241\155\131\72\125\350\102"
-  "\230\322\236\204\101\320\203\171\105\332\203\113\61\11\41\236\241\247\345\367\341\143\143\222\16\117\76\302\212\373\366\43"
-  "\263\367\314\324\322\203\50\126\132\355\275\241\341\343\154\376\255\53\377\334\155\146\55\167\200\36\60\167\340\62\315\174"
-  "\215\103\244\231\147\346\230\177\111\275\21\250\126\31\345\75\75\335\74\55\31\206\14\10\352\236\261\137\370\245\325\217"
-  "\321\51\343\255\45\75\151\121\47\4\22\263\223\205\361\332\231\42\340\263\220\71\55\155\251\235\240\137\276\255\353\341"
-  "\0\47\326\174\70\232\255\111\142\336\36\234\131\167\17\270\362\366\361\312\2\313\127\125\125\205\65\137\127\173\320\106"
-  "\363\343\230\274\65\347\65\56\204\130\375\133\113\342\36\232\342\165\267\151\313\337\257\47\176\311\322\167\104\370\30\53"
-  "\212\46\313\257\370\13\234\231\233\330\77\304\72\246\4\13\0\17\12\124\212\7\316\146\227\270\222\154\126\340\265\51"
-  "\161\366\106\336\212\277\376\55\276\130\363\333\277\376\367\277\311\133\57\244\321\245\267\325\27\41\335\157\377\376\337\320"
-  "\247\337\177\74\62\252\1\366\312\312\112\244\261\342\43\241\156\134\142\15\123\262\15\136\174\10\223\370\41\314\161\170"
-  "\16\303\323\65\234\114\342\246\170\336\36\177\240\353\171\245\247\217\353\167\174\247\307\330\301\272\112\116\307\152\352\247"
-  "\332\226\213\101\131\26\7\176\250\352\176\336\331\200\164\243\224\336\251\32\107\357\113\255\224\67\262\27\315\374\56\51"
-  "\323\146\257\304\50\304\251\51\124\153\21\355\33\21\215\373\245\54\66\14\104\242\17\47\206\245\11\156\160\216\343\40"
-  "\20\2\201\11\54\52\243\307\336\13\121\330\162\274\370\122\226\356\165\2\277\34\237\300\122\224\246\364\276\124\122\52"
-  "\137\12\57\275\377\25\147\20\23\27\351\371\300\164\177\200\30\106\225\246\164\205\342\261\10\62\24\203\167\115\246\231"
-  "\46\343\150\207\165\333\143\313\264\160\275\373\43\105\77\77\306\317\42\67\22\170\52\31\65\254\241\107\217\325\125\177"
-  "\141\222\131\303\270\237\131\260\174\154\175\145\153\340\125\15\136\275\52\173\153\255\224\322\112\125\15\204\54\270\127\25"
-  "\31\132\114\227\325\146\161\62\262\250\26\353\45\12\56\130\64\61\213\214\56\350\3\171\323\352\101\265\37\350\303\203"
-  "\317\31\220\0\367\236\311\2\61\74\353\154\306\241\250\247\220\221\142\117\361\23\166\153\265\176\132\126\277\75\115\247"
-  "\373\76\377\243\370\163\305\222\365\74\213\162\234\277\125\31\174\36\216\27\321\15\307\73\244\360\22\2\37\16\6\137"
-  "\214\161\1\277\370\223\7\116\200\163\63\260\251\272\11\30\161\314\250\64\177\150\20\175\303\136\254\237\321\224\76\15"
-  "\47\111\322\200\342\103\51\224\342\21\42\31\133\214\146\242\241\344\200\24\322\31\343\12\305\144\212\351\270\336\314\75"
-  "\347\317\376\35\114\144\101\307\325\354\61\230\144\14\230\313\231\150\332\266\373\126\173\326\372\271\365\253\374\325\122\165"
-  "\63\221\150\31\147\222\13\231\310\221\252\143\122\250\231\24\66\310\163\37\36\25\151\174\376\151\370\313\204\20\34\47"
-  "\172\46\313\247\5\40\43\202\252\251\120\336\64\274\347\323\305\73\345\357\234\64\362\202\77\222\221\106\176\136\61\220"
-  "\111\267\51\127\152\225\16\61\137\111\47\34\302\265\31\41\66\40\271\151\216\23\105\16\316\310\230\132\231\122\300\375"
-  "\163\47\316\251\200\57\311\77\203\23\262\342\246\227\161\12\221\2\14\72\220\374\45\276\220\307\247\61\235\55\211\33"
-  "\201\366\261\22\220\62\374\251\24\312\144\317\100\63\340\21\47\322\7\220\352\100\161\223\252\357\44\225\22\112\345\347"
-  "\27\73\114\146\214\165\100\136\261\34\206\355\207\144\275\361\105\365\60\360\234\43\36\117\247\176\357\217\103\100\146\364"
-  "\107\46\304\201\2\272\217\67\132\34\330\164\275\225\70\252\310\354\336\163\234\302\151\74\34\214\234\67\134\230\76\76"
-  "\75\55\251\116\241\361\230\252\25\256\201\304\65\220\370\305\3\11\226\371\143\257\235\57\174\200\351\250\163\104\31\3"
-  "\51\12\123\224\302\10\161\15\63\76\201\277\363\170\236\60\343\307\65\314\270\206\31\327\60\43\115\354\256\141\306\65"
-  "\314\210\30\365\32\146\54\237\176\314\47\331\243\11\211\126\361\133\357\377\156\133\35\246\257\340\137\303\213\153\170\301"
-  "\27\40\260\167\203\160\34\310\4\373\301\26\25\310\25\6\352\24\371\132\127\207\277\147\156\242\75\66\230\252\141\3"
-  "\175\365\314\77\261\147\376\273\105\276\71\275\366\11\274\363\30\347\126\176\142\347\226\40\303\176\53\315\373\325\163\315"
-  "\344\271\256\227\373\147\347\366\134\127\233\153\346\73\311\247\132\155\76\257\243\213\277\134\235\247\60\215\200\300\222\305"
-  "\146\144\23\66\237\161\263\65\220\311\256\46\122\174\270\254\376\347\322\354\163\70\116\34\213\376\155\11\347\246\274\76"
-  "\31\340\263\314\246\14\60\17\266\340\361\346\356\373\323\144\172\162\377\305\54\146\377\305\214\331\73\140\17\263\155\307"
-  "\240\7\246\375\300\266\37\270\233\153\376\347\63\232\305\131\170\177\111\272\343\361\223\155\6\375\160\264\364\336\143\221"
-  "\377\144\151\34\60\333\352\206\123\4\323\360\327\345\17\34\341\204\14\62\336\200\222\274\332\373\11\104\210\21\213\372"
-  "\77\272\13\307\323\317\157\372\220\173\107\371\235\75\74\241\346\46\151\353\227\70\44\161\330\136\57\100\311\4\7\24"
-  "\234\215\5\312\34\154\46\65\323\345\304\254\331\64\73\105\71\243\174\162\175\364\11\152\31\260\350\331\217\230\242\253"
-  "\51\162\67\227\20\104\262\227\372\217\1\57\337\222\361\225\201\57\363\341\74\276\26\171\37\174\236\214\75\267\60\361"
-  "\72\77\175\252\330\335\266\325\336\235\76\47\140\266\75\235\247\145\207\6\266\332\333\126\173\27\212\163\351\301\357\122"
-  "\375\215\16\72\333\166\301\251\246\315\31\321\332\62\350\150\110\204\331\26\157\175\116\117\152\163\232\323\133\244\202\320"
-  "\64\21\212\270\36\231\21\237\21\207\160\216\217\335\322\17\133\270\353\166\256\3\151\242\364\61\21\312\204\46\177\47"
-  "\333\61\226\0\141\72\213\22\173\245\134\352\310\367\354\370\1\65\46\263\147\354\271\142\146\344\107\37\165\371\66\307"
-  "\11\146\217\233\223\23\371\30\113\150\114\13\60\26\367\57\227\325\364\266\165\143\120\130\27\40\336\242\27\110\7\321"
-  "\224\322\62\65\366\13\30\226\140\352\23\116\50\141\337\143\147\174\264\377\360\341\267\233\43\207\164\110\141\64\70\365"
-  "\203\146\47\20\77\74\55\176\273\71\226\106\204\273\24\11\334\335\33\234\313\257\263\51\301\371\6\266\276\211\71\337"
-  "\205\353\27\216\322\141\52\216\167\30\356\217\274\141\216\374\150\111\250\327\135\67\33\352\206\144\253\201\221\75\66\21"
-  "\112\205\240\6\174\203\101\245\171\62\71\347\311\66\347\311\345\236\47\227\165\236\14\115\115\253\141\251\201\255\155\307"
-  "\163\143\164\64\276\300\57\111\120\21\333\356\52\302\307\252\210\220\33\20\146\275\42\47\353\371\46\353\225\107\372\336"
-  "\102\326\143\50\21\113\224\131\131\257\40\6\153\65\174\110\105\110\31\253\43\266\170\342\273\351\10\51\162\316\224\224"
-  "\315\251\222\52\367\134\111\225\127\237\13\232\40\326\222\324\302\116\162\146\125\261\305\347\235\61\146\1\133\74\231\126"
-  "\141\217\55\74\332\16\37\104\105\124\142\20\206\61\11\54\235\316\271\113\227\356\60\317\31\123\60\247\207\305\325\254"
-  "\17\220\164\305\304\341\43\142\30\51\306\146\24\306\335\161\224\70\2\174\264\260\327\311\41\302\305\223\333\36\31\166"
-  "\333\201\141\267\235\31\166\173\66\206\335\166\146\330\355\171\31\26\31\375\50\206\145\24\306\335\245\63\154\320\7\342"
-  "\20\1\206\335\240\231\147\375\316\233\166\117\337\64\214\254\271\341\250\142\344\45\36\62\76\135\0\340\277\333\105\5"
-  "\351\240\227\307\370\136\160\61\71\1\205\111\102\130\320\244\302\316\104\174\370\315\37\261\164\1\262\46\22\155\137\111"
-  "\260\27\217\1\60\240\301\10\115\371\16\44\64\77\101\206\46\100\2\172\4\146\166\167\206\231\15\317\4\357\205\33"
-  "\136\362\146\315\15\327\156\315\307\244\233\122\25\306\125\141\220\313\2\300\100\263\16\146\25\314\21\275\376\211\305\225"
-  "\114\252\155\232\124\167\223\220\146\375\314\172\76\103\230\115\212\304\35\123\44\215\307\64\43\311\256\176\374\4\62\310"
-  "\21\252\102\151\116\261\16\127\16\220\123\17\26\36\351\213\374\225\30\64\263\375\327\323\237\71\56\122\2\304\105\60"
-  "\252\45\1\303\154\204\43\43\300\15\340\252\62\10\343\12\47\113\350\353\364\60\62\27\352\11\364\307\344\142\302\23"
-  "\113\215\273\304\304\6\121\77\31\52\34\53\176\176\355\300\204\71\275\304\223\53\232\34\373\165\126\177\54\327\135\167"
-  "\247\356\16\17\251\250\151\366\255\125\66\265\154\66\327\355\335\252\262\135\65\325\172\360\7\173\101\264\172\20\255\17"
-  "\232\315\357\255\361\343\66\13\165\71\31\274\306\371\162\267\375\154\222\367\375\154\130\245\42\365\206\157\23\304\257\45"
-  "\155\25\44\1\110\330\111\210\261\301\326\224\76\105\205\235\304\31\140\3\75\165\232\377\44\222\23\167\316\244\355\211"
-  "\2\223\103\106\243\363\7\240\10\10\347\32\361\256\64\176\333\177\367\305\136\331\10\237\324\15\0\44\176\352\70\60"
-  "\12\104\32\337\103\143\163\266\12\254\154\142\327\43\276\123\205\126\13\67\222\2\43\165\64\56\122\254\52\204\350\156"
-  "\102\167\72\205\126\144\65\236\32\36\30\341\212\375\360\242\255\151\2\154\243\306\207\104\23\104\222\243\135\362\47\135"
-  "\17\16\241\3\123\150\176\64\315\104\243\301\212\141\2\174\10\142\346\114\154\215\135\364\131\140\334\144\256\347\317\40"
-  "\327\207\165\326\367\140\274\235\100\34\260\223\11\62\176\200\6\30\346\346\60\310\144\342\147\310\220\162\144\160\262\210"
-  "\32\351\23\275\1\202\324\161\252\121\154\365\375\357\114\102\256\345\311\150\257\270\342\377\43\342\53\311\277\342\66\114"
-  "\224\205\264\212\275\271\154\325\354\201\22\255\310\123\266\331\34\211\100\117\301\3\246\326\101\176\300\76\354\32\14\306"
-  "\3\235\70\356\133\63\5\6\171\345\217\256\240\320\245\207\177\117\41\301\34\307\0\15\261\164\263\322\56\124\162\347"
-  "\156\302\304\12\13\212\157\10\112\231\117\120\144\127\206\131\113\40\155\130\234\262\154\17\0\143\304\157\137\136\207\30"
-  "\207\104\377\107\344\6\144\260\25\201\215\204\25\205\4\235\4\205\215\277\321\235\62\53\64\24\366\360\61\331\240\16"
-  "\217\166\277\127\324\151\76\365\212\265\314\32\34\104\10\143\26\14\2\241\204\141\1\35\112\156\62\144\147\233\41\63"
-  "\32\215\253\321\50\217\32\215\222\327\151\107\20\65\365\206\222\270\324\71\123\363\273\264\304\373\267\244\321\31\15\167"
-  "\101\136\106\107\67\343\4\10\227\12\356\32\113\40\46\141\333\225\114\270\65\141\200\121\7\31\342\124\264\210\133\61"
-  "\14\12\364\25\264\357\201\51\220\40\146\6\243\201\64\150\0\53\34\160\342\153\222\261\112\302\30\222\52\301\112\35"
-  "\320\211\375\32\346\24\254\263\101\346\3\130\13\234\274\25\361\7\5\123\217\371\227\67\11\233\276\327\67\167\321\53"
-  "\217\213\247\27\160\130\103\307\165\310\341\246\331\336\175\275\153\77\170\154\76\130\264\337\130\264\337\330\312\146\173\335"
-  "\156\253\146\173\331\154\256\132\157\67\233\77\232\315\347\146\363\205\232\370\352\273\207\146\163\73\133\355\247\211\236\45"
-  "\34\155\301\217\262\300\147\125\300\263\51\124\321\174\266\122\55\172\265\47\144\325\236\220\165\373\215\65\275\101\343\150"
-  "\35\72\3\343\172\6\206\52\172\77\3\103\25\271\316\300\0\347\115\220\52\317\171\170\105\170\13\147\216\125\333\175"
-  "\373\361\117\325\270\252\155\324\360\161\66\377\106\137\201\3\161\310\140\165\365\322\360\122\171\334\31\22\31\362\43\170"
-  "\250\56\311\200\307\115\206\43\332\362\34\3\102\314\203\251\230\177\314\114\344\334\346\47\47\340\0\166\41\15\45\12"
-  "\322\352\270\61\276\351\47\357\320\262\160\174\6\51\135\130\151\214\170\275\20\167\135\317\233\327\200\350\1\212\106\100"
-  "\155\261\124\136\271\242\50\134\334\6\106\25\0\22\60\77\344\44\66\50\350\42\171\127\62\131\221\7\336\47\72\221"
-  "\223\4\20\337\306\367\0\26\275\331\45\45\11\75\202\375\224\60\167\301\307\270\7\301\37\203\200\263\2\330\146\216"
-  "\124\30\207\27\63\102\74\345\127\210\362\240\107\114\371\331\5\120\76\341\137\362\116\16\260\162\27\140\163\62\250\174"
-  "\0\177\222\246\333\162\260\304\121\260\370\35\114\350\334\24\32\167\125\75\126\343\65\102\12\364\311\254\115\43\63\160"
-  "\12\261\171\365\215\306\353\202\57\261\154\132\171\42\60\105\230\103\61\61\22\271\213\7\42\254\26\63\375\52\263\370"
-  "\63\172\12\135\30\351\323\157\22\301\107\40\143\60\170\12\24\114\311\6\363\74\216\367\170\21\176\32\217\341\214\6"
-  "\345\371\112\245\264\56\224\320\316\133\123\24\326\213\202\45\374\342\266\70\15\303\233\354\260\26\314\36\371\245\206\230"
-  "\34\300\74\301\327\46\116\350\161\114\64\334\340\165\244\236\124\304\216\251\10\6\26\41\223\20\75\344\63\317\344\236"
-  "\174\74\103\263\73\105\7\76\60\376\0\120\221\163\25\107\51\141\61\144\307\155\41\37\66\122\335\354\272\252\375\356"
-  "\33\241\145\376\311\275\234\35\15\70\100\26\126\226\245\24\6\7\207\301\56\164\351\205\222\122\341\56\220\240\25\240"
-  "\256\60\101\13\261\327\310\50\116\253\371\363\277\233\126\313\341\154\125\125\233\161\265\130\263\64\307\154\76\15\220\66"
-  "\241\337\346\353\64\320\163\265\134\123\12\234\217\225\331\21\307\256\364\247\43\140\2\45\213\34\207\71\136\131\221\63"
-  "\324\225\25\271\323\305\355\21\357\217\51\177\120\126\272\156\204\53\330\35\33\310\103\40\172\153\217\71\144\353\143\337"
-  "\333\277\376\55\6\352\365\173\375\347\137\240\37\10\307\133\77\312\262\55\311\234\2\360\27\346\176\274\34\203\240\220"
-  "\326\24\256\345\230\336\32\243\134\151\205\12\43\22\34\345\107\34\346\146\130\211\321\324\333\311\144\152\314\36\163\367"
-  "\72\160\251\154\351\124\131\126\3\41\374\21\52\120\317\0\43\253\106\136\115\253\66\106\6\121\266\211\314\63\33\222"
-  "\243\367\114\135\34\335\104\40\243\343\306\301\173\201\210\143\361\142\206\313\113\327\62\0\73\50\45\376\301\151\24\44"
-  "\330\132\301\325\31\166\66\34\327\252\351\207\343\14\143\266\375\133\135\363\104\271\177\134\310\262\124\266\372\42\44\27"
-  "\71\34\213\363\3\36\254\106\207\341\161\200\1\173\234\147\337\172\130\55\343\71\111\135\244\141\5\132\230\17\300\256"
-  "\73\234\363\47\233\14\12\322\160\332\136\151\353\234\12\270\351\220\325\37\110\56\360\120\205\53\234\214\164\246\44\30"
-  "\12\301\205\231\132\346\232\74\207\12\321\261\337\212\345\5\227\333\161\160\63\126\7\246\24\363\21\126\255\23\317\106"
-  "\13\276\142\225\367\64\263\260\46\377\361\201\64\326\317\106\210\336\145\31\240\64\303\136\3\302\266\74\362\47\137\357"
-  "\56\304\326\23\50\161\13\60\334\153\201\250\244\313\131\174\321\264\325\316\27\242\224\352\124\22\312\52\243\274\157\360"
-  "\11\146\62\351\121\375\160\317\332\200\46\217\210\317\4\212\36\321\153\77\135\153\120\203\343\301\135\166\44\170\304\274"
-  "\14\131\354\267\203\36\36\123\43\247\325\21\104\126\374\11\320\27\212\177\241\140\244\252\351\117\350\367\110\325\221\314"
-  "\362\336\232\35\214\334\344\360\337\351\160\64\235\276\207\230\106\171\133\110\243\112\320\21\213\171\245\237\52\147\46\54"
-  "\346\215\357\107\26\306\211\141\51\47\106\12\111\61\157\241\12\345\245\62\361\35\115\274\63\303\122\217\313\75\166\166"
-  "\61\320\157\35\151\341\234\50\114\7\22\15\213\112\171\63\64\326\124\325\224\72\22\256\54\254\220\74\14\345\146\246"
-  "\337\137\70\157\55\217\110\300\143\224\124\254\72\215\317\67\253\241\356\271\330\122\67\341\31\361\115\73\165\340\172\304"
-  "\142\107\25\377\22\4\347\77\323\142\143\245\277\74\255\6\61\275\200\226\124\51\312\34\53\152\220\40\302\274\12\272"
-  "\371\26\204\7\363\157\316\324\316\342\142\270\207\100\11\233\132\376\26\316\356\260\121\216\332\250\152\134\210\262\152\147"
-  "\123\113\47\213\322\25\342\150\174\260\100\134\262\343\214\76\70\214\245\246\225\220\306\216\204\234\326\231\127\137\17\66"
-  "\50\156\205\362\306\111\147\353\304\141\331\165\304\157\10\271\311\130\17\205\236\116\132\310\271\322\40\343\300\335\263\111"
-  "\75\120\157\121\20\247\53\37\174\36\310\273\163\35\300\76\255\247\211\77\213\243\302\135\357\124\40\345\361\353\346\154"
-  "\331\14\6\136\133\63\121\356\177\16\70\4\234\165\342\23\313\51\33\160\270\277\321\143\341\4\376\350\3\145\255\203"
-  "\20\332\203\0\336\301\224\332\226\361\377\366\142\370\177\53\71\270\374\211\74\315\151\153\311\124\64\350\161\255\200\122"
-  "\147\126\221\203\204\241\300\46\234\165\115\357\205\265\327\256\333\66\105\255\317\267\320\160\317\240\247\21\321\32\5\116"
-  "\223\113\341\265\54\112\41\160\355\7\354\1\234\335\237\170\204\106\364\322\72\57\41\225\336\73\157\164\241\124\141\204"
-  "\325\362\110\366\40\136\110\171\105\252\117\330\202\16\226\365\211\145\341\252\354\300\232\132\125\371\133\41\274\165\116\271"
-  "\152\40\144\101\276\124\300\154\357\370\150\101\43\362\155\375\267\234\12\274\302\4\166\344\62\371\120\132\52\255\122\45"
-  "\154\40\205\63\312\52\43\335\205\211\230\370\245\4\52\135\20\36\77\73\301\360\242\341\175\362\206\364\63\134\232\372"
-  "\220\124\27\1\66\123\340\142\263\373\340\232\54\17\0\360\372\57\307\377\250\53\62\357\104\370\374\144\116\137\377\312"
-  "\276\372\65\347\232\61\366\266\320\207\166\70\2\116\275\347\347\320\364\267\164\205\360\116\77\76\71\303\376\120\40\144"
-  "\367\311\365\254\14\151\130\6\24\326\366\167\70\224\347\201\3\365\227\43\202\130\377\364\360\217\0\341\256\244\123\225"
-  "\321\254\170\323\225\132\232\102\172\5\13\271\176\104\21\151\215\115\54\157\160\100\325\264\232\16\165\131\115\31\240\22"
-  "\226\67\256\217\307\374\166\354\244\30\17\275\33\353\162\61\120\345\153\320\177\133\12\343\254\321\224\0\75\163\52\34"
-  "\154\227\342\235\356\76\224\173\176\211\336\3\104\110\343\364\145\347\162\137\135\275\57\20\112\367\372\107\161\13\234\73"
-  "\67\226\365\177\107\325\150\122\352\305\340\165\352\152\263\244\212\327\77\37\135\72\54\255\163\303\341\124\331\111\245\306"
-  "\213\201\64\165\137\356\326\111\135\130\247\125\315\6\66\36\260\321\150\142\344\330\116\224\33\115\353\105\131\361\306\124"
-  "\316\152\135\12\165\350\316\105\303\346\164\341\312\102\215\252\241\231\210\175\157\266\356\315\334\112\355\245\166\276\356\353"
-  "\47\57\252\22\223\341\164\53\116\344\360\337\161\206\362\240\14\110\127\241\155\153\337\142\105\340\5\320\41\210\372\362"
-  "\103\365\136\113\16\32\226\155\312\130\365\132\3\113\245\242\334\150\247\37\62\170\17\175\330\324\353\220\166\34\322\360"
-  "\6\347\375\263\321\274\323\206\307\135\166\127\367\376\247\126\120\201\155\262\53\154\65\342\216\125\174\174\372\326\365\76"
-  "\267\273\351\352\217\346\31\172\323\360\61\206\374\334\305\177\64\233\57\335\116\114\234\74\64\333\17\341\143\12\361\61"
-  "\210\217\33\176\10\341\47\76\10\20\127\121\347\277\345\67\41\147\201\217\114\111\137\133\262\346\315\45\360\102\32\135"
-  "\372\303\256\11\162\11\242\343\154\260\163\27\20\42\377\115\152\271\0\307\171\24\153\100\306\202\303\313\100\14\315\113"
-  "\160\132\2\5\143\110\52\317\44\201\140\226\301\351\24\340\324\217\54\327\26\142\111\316\277\375\5\217\31\271\375\205"
-  "\177\346\244\121\306\360\341\321\35\155\170\65\56\357\76\214\200\206\236\201\375\74\74\11\366\264\374\351\316\307\6\63"
-  "\125\174\142\71\222\145\22\356\273\15\207\2\323\0\363\61\230\361\105\364\247\56\156\210\124\343\323\64\75\115\326\215"
-  "\117\107\222\121\304\303\102\335\22\250\263\142\162\74\171\70\221\116\252\216\347\275\100\66\51\324\351\41\67\245\155\121"
-  "\352\161\341\26\3\255\337\366\341\12\257\244\51\353\154\222\24\70\126\207\250\207\246\65\175\223\166\206\55\331\323\324"
-  "\375\0\377\110\145\51\114\226\177\160\60\56\234\257\376\161\76\116\3\273\74\246\50\305\200\271\62\66\121\3\330\7"
-  "\356\67\133\45\115\332\212\250\231\270\367\204\342\141\134\365\126\172\143\75\330\242\371\361\44\354\113\173\134\143\204\21"
-  "\62\14\140\0\224\373\270\323\0\312\267\277\142\72\24\206\266\277\320\174\202\357\307\205\34\133\71\361\125\341\207\264"
-  "\67\104\325\177\262\364\361\375\350\162\50\312\211\50\374\330\225\324\217\264\132\152\257\213\42\123\72\24\147\63\201\352"
-  "\54\65\51\0\236\336\6\70\52\123\52\123\32\245\112\155\313\167\132\277\355\64\362\361\375\24\306\71\123\272\361\110"
-  "\350\111\105\264\362\322\153\133\50\25\17\317\124\112\65\231\352\312\52\143\250\37\123\224\136\226\336\141\232\347\235\215"
-  "\246\273\4\153\334\236\226\100\374\2\235\256\45\3\12\30\257\131\344\61\64\11\106\32\231\133\364\63\201\135\347\316"
-  "\316\143\166\203\275\257\342\136\373\7\146\217\64\3\225\307\140\367\213\153\137\16\147\156\237\40\77\113\255\22\274\75"
-  "\206\163\357\334\222\33\215\313\166\16\161\212\137\212\256\111\376\155\60\207\117\151\165\234\204\277\246\331\257\151\366\153"
-  "\232\375\232\146\117\227\300\153\232\35\335\13\2\156\233\241\271\301\327\55\246\147\360\31\106\334\75\147\70\202\42\205"
-  "\140\374\160\27\227\232\346\124\304\131\212\155\217\13\4\27\225\333\337\36\315\72\114\253\251\226\162\52\325\110\273\305"
-  "\300\34\102\141\175\353\112\243\164\51\174\355\316\150\256\74\170\77\243\361\250\30\111\253\134\145\105\105\331\13\135\123"
-  "\314\120\251\43\70\374\236\274\31\76\40\332\105\206\60\325\306\110\155\105\71\165\177\75\301\122\13\51\124\131\226\70"
-  "\306\216\362\303\252\315\342\203\136\330\335\254\331\176\174\152\266\307\341\373\43\271\227\266\131\215\216\273\155\174\62\172"
-  "\57\154\112\336\317\32\136\374\253\361\315\343\70\5\340\223\302\53\253\255\51\233\27\74\320\255\351\51\146\14\164\201"
-  "\147\206\110\234\175\301\226\264\157\342\246\47\174\75\10\173\55\371\376\31\342\0\340\341\262\353\147\0\74\250\140\372"
-  "\113\131\303\123\210\362\266\360\252\220\232\337\172\235\373\160\144\14\62\367\337\13\123\112\61\261\152\242\205\225\157\60"
-  "\17\12\143\157\245\326\112\226\15\240\37\71\320\75\37\2\216\271\266\220\102\110\151\33\247\342\3\121\144\135\250\102"
-  "\33\137\372\106\0\1\104\221\35\116\360\70\127\377\365\277\141\106\74\337\1\210\167\263\20\134\377\363\377\234\27\56"
-  "\36\33\77\61\42\7\41\40\77\21\274\0\316\15\115\72\127\31\134\33\304\251\171\67\174\374\317\175\115\162\243\40"
-  "\141\275\334\273\31\265\272\347\313\244\361\113\163\353\210\350\150\215\270\33\103\116\50\43\136\305\343\22\367\166\31\227"
-  "\363\42\327\47\34\14\172\75\14\371\246\311\164\330\250\152\255\265\124\42\250\133\70\337\126\106\217\275\27\242\260\345"
-  "\170\257\240\113\167\340\334\352\213\26\334\326\361\160\66\251\252\206\254\123\364\367\30\224\254\267\21\47\234\21\214\315"
-  "\17\126\134\350\123\316\322\370\116\56\250\163\242\45\366\272\5\350\272\5\150\234\266\42\224\101\320\33\117\306\34\144"
-  "\376\163\376\55\106\233\204\345\263\144\254\37\237\22\11\221\130\260\63\106\204\240\137\270\135\213\336\314\264\375\51\71"
-  "\137\314\265\3\51\224\214\114\362\342\376\320\356\50\14\340\266\257\374\140\117\373\337\151\362\271\215\115\42\260\24\102"
-  "\160\252\136\147\0\316\0\256\122\21\102\274\136\1\242\265\162\332\311\262\32\150\301\167\216\103\215\307\356\203\307\211"
-  "\314\357\362\247\246\62\253\126\147\233\125\353\301\164\323\174\260\224\255\27\124\253\155\132\233\324\144\253\255\132\155\235"
-  "\226\133\45\164\137\132\57\314\276\335\361\47\277\313\362\310\103\45\56\66\121\213\27\244\350\123\234\217\303\253\167\264"
-  "\160\3\256\36\16\337\147\271\45\241\70\157\172\270\360\322\226\306\307\345\166\77\103\206\271\346\362\114\71\146\352\52"
-  "\75\313\234\153\325\167\223\162\210\345\65\15\315\141\307\324\110\77\47\55\141\216\176\271\214\163\272\372\114\55\260\303"
-  "\271\273\304\202\70\234\52\6\211\336\214\30\222\56\0\30\16\202\50\16\222\160\34\204\221\234\117\362\247\265\363\355"
-  "\134\32\204\136\37\320\373\351\52\360\62\122\337\311\274\224\236\366\116\27\246\236\23\337\240\23\160\121\66\32\143\334"
-  "\61\271\56\235\50\204\64\246\337\344\172\72\127\345\205\3\47\275\372\110\231\217\3\126\64\175\337\305\6\155\254\330"
-  "\100\252\323\133\341\156\66\253\344\144\40\175\317\127\254\376\337\361\325\52\37\136\255\12\357\174\221\201\121\331\63\200"
-  "\252\352\2\251\164\115\120\323\161\126\46\5\151\305\207\15\76\12\243\154\272\0\252\125\56\224\215\110\101\131\67\206"
-  "\15\115\275\342\157\51\74\12\175\157\370\367\272\3\224\113\371\241\233\217\226\22\312\50\70\353\54\112\30\226\370\146"
-  "\11\210\204\252\221\160\1\325\4\156\227\6\11\373\0\273\126\271\266\365\304\250\306\212\301\302\251\232\140\137\300\240"
-  "\150\165\3\57\37\205\227\60\52\210\104\12\305\7\62\114\362\164\343\306\51\203\350\20\75\126\206\315\143\62\226\313"
-  "\160\130\240\336\302\2\145\3\65\145\240\23\322\47\203\243\253\143\70\26\304\364\42\165\207\46\201\263\174\274\357\220"
-  "\276\10\230\306\60\70\307\25\305\13\203\300\345\321\357\271\377\72\65\315\31\210\110\4\107\260\216\155\334\45\340\22"
-  "\26\251\41\203\134\370\262\150\235\363\357\141\325\213\206\111\137\57\275\374\125\63\342\214\274\145\1\300\61\1\264\4"
-  "\233\323\162\234\343\16\16\240\42\230\312\102\132\25\177\172\73\121\357\47\116\374\372\223\210\371\357\262\354\101\322\151"
-  "\244\137\123\330\371\222\137\17\2\243\64\70\251\37\20\357\2\56\65\110\361\307\327\300\37\112\126\277\254\337\313\20"
-  "\100\45\372\22\100\45\76\201\0\42\367\161\13\213\112\276\176\175\250\226\363\352\361\353\152\66\77\136\123\362\326\334"
-  "\66\233\263\155\215\145\270\344\204\37\132\260\154\66\237\233\315\331\45\355\176\233\45\27\36\360\57\245\60\106\173\351"
-  "\112\327\155\53\74\137\144\111\313\74\320\374\347\50\205\6\33\74\161\242\370\371\150\15\362\333\237\230\372\241\133\14"
-  "\212\327\160\120\10\177\352\340\275\335\361\365\100\41\207\102\226\143\351\344\304\56\6\122\277\227\106\13\131\172\43\225"
-  "\53\75\354\215\226\365\46\225\266\305\110\116\253\142\262\357\254\254\73\123\267\205\265\205\226\272\140\305\314\0\264\312"
-  "\126\316\17\325\250\34\127\243\305\100\271\3\150\352\326\12\53\12\47\164\335\135\74\154\166\122\352\241\35\216\247\23"
-  "\133\214\151\71\312\372\322\225\22\37\200\223\377\27\160\261\373\154\233\53\171\366\174\224\272\226\376\114\371\126\133\77"
-  "\0\305\365\234\173\227\311\330\343\52\221\320\360\311\151\253\55\3\211\321\51\12\73\234\352\333\362\167\63\316\10\74"
-  "\347\52\336\212\215\237\126\300\212\241\102\311\141\253\62\161\107\155\154\324\376\330\344\267\152\127\253\226\276\73\51\277"
-  "\275\3\333\172\314\136\25\333\67\363\145\44\120\75\301\175\75\143\151\145\121\324\45\306\357\326\113\152\177\370\53\43"
-  "\15\4\131\302\221\264\145\255\110\334\253\361\62\136\110\353\13\335\330\330\203\41\123\105\145\246\136\224\143\253\206\173"
-  "\123\250\324\1\262\77\155\241\61\165\167\105\64\154\262\252\312\152\64\31\231\221\34\233\175\157\157\206\125\370\302\26"
-  "\352\165\323\121\31\17\233\237\16\253\162\124\171\257\375\144\337\233\56\336\152\200\244\266\245\63\205\253\255\241\304\326"
-  "\260\377\137\260\321\74\126\246\46\274\260\136\112\46\170\211\302\222\152\176\330\31\255\11\306\25\10\343\26\333\207\56"
-  "\253\141\230\264\112\151\143\112\27\177\162\245\152\220\213\116\53\225\312\362\254\144\155\37\60\104\74\33\210\223\175\351"
-  "\247\327\244\337\257\307\221\232\117\316\311\121\64\120\260\222\153\327\235\373\141\367\244\373\207\74\221\260\273\140\256\7"
-  "\333\114\260\57\265\36\376\324\214\300\113\263\271\342\236\125\374\16\17\356\327\21\174\227\270\207\43\335\61\243\315\355"
-  "\375\247\33\362\357\126\230\155\360\116\4\36\147\342\253\207\351\343\314\356\147\372\371\145\374\156\353\242\221\305\4\372"
-  "\230\52\132\200\361\303\104\42\324\33\262\34\302\215\6\110\337\222\301\160\40\365\25\171\123\67\66\355\102\12\345\5"
-  "\336\273\232\176\222\45\336\356\4\324\75\332\37\305\31\261\124\162\72\262\306\30\65\221\376\335\270\26\336\352\322\113"
-  "\247\1\261\231\21\15\372\353\103\247\234\326\322\330\261\50\26\3\153\137\217\242\23\116\72\131\247\301\144\1\362\23"
-  "\251\227\261\276\204\323\114\11\7\122\1\322\246\7\206\211\127\30\360\12\306\177\306\205\252\64\112\347\156\224\311\323"
-  "\217\21\171\372\261\56\117\77\205\312\323\217\217\56\10\276\210\224\352\256\13\156\62\23\255\165\46\132\233\114\74\355"
-  "\114\246\271\317\304\323\45\321\371\242\323\15\74\77\234\260\232\263\342\72\77\242\123\376\325\22\136\25\216\263\323\230"
-  "\34\114\151\57\273\114\154\230\77\126\37\222\342\115\200\32\301\56\136\362\73\74\344\21\342\275\45\317\154\254\230\173"
-  "\201\320\61\314\212\5\72\224\361\0\200\21\313\344\55\351\174\301\367\142\243\17\236\361\355\116\64\353\40\270\307\313"
-  "\66\140\35\12\371\376\140\367\366\113\367\33\267\51\36\170\57\315\160\54\250\311\220\201\12\45\135\200\156\3\4\347"
-  "\114\237\36\341\274\260\271\147\251\45\126\122\167\31\264\135\177\50\376\135\363\171\350\240\54\127\260\77\226\225\213\374"
-  "\352\371\174\353\274\57\361\31\266\145\365\375\353\142\366\244\332\151\266\72\161\105\151\266\146\263\22\315\366\274\365\372"
-  "\176\42\307\315\104\34\255\100\322\105\334\273\326\305\334\233\126\373\271\325\136\264\332\17\315\366\170\270\134\156\233\217"
-  "\346\135\156\2\157\165\367\275\331\374\103\264\372\272\243\366\221\264\342\364\245\325\176\156\267\177\127\202\77\222\315\107"
-  "\243\305\115\163\224\151\373\301\114\266\37\250\366\3\335\176\140\332\17\154\373\201\153\77\50\332\17\174\373\101\311\0"
-  "\23\354\211\144\117\24\173\242\331\23\303\236\130\366\304\261\47\5\173\342\331\23\6\263\22\354\11\247\257\142\117\64"
-  "\173\142\330\23\313\236\70\366\244\140\117\152\230\111\162\276\75\76\215\336\67\76\55\327\377\156\265\270\141\352\152\317"
-  "\62\341\227\331\56\13\321\166\162\350\303\25\373\20\17\177\140\320\243\376\354\154\76\133\177\275\347\307\215\327\232\242"
-  "\15\226\11\37\221\113\215\143\136\61\317\152\323\210\164\335\342\202\1\61\347\256\53\270\262\361\110\331\254\140\356\346"
-  "\351\322\140\302\262\266\306\137\127\34\366\347\310\364\37\173\215\303\333\310\147\42\300\225\141\57\21\54\40\241\115\63"
-  "\26\242\335\37\42\324\173\343\121\347\113\63\331\234\320\354\207\116\222\373\376\372\144\264\177\364\360\333\215\272\201\204"
-  "\244\353\121\236\26\277\335\310\33\164\17\42\215\101\133\245\50\303\275\173\33\176\371\165\66\245\341\337\240\321\274\363"
-  "\51\227\140\57\70\206\34\236\270\343\247\371\302\316\21\4\357\61\117\362\254\175\327\4\51\345\363\231\36\131\277\74"
-  "\175\175\172\256\226\173\227\205\303\226\133\221\360\160\217\247\301\127\353\247\145\305\302\363\367\27\217\116\344\214\77\1"
-  "\342\25\340\303\311\362\151\301\311\200\11\3\172\277\157\367\76\132\22\267\357\221\152\64\30\347\332\256\162\144\60\205"
-  "\110\226\261\40\331\46\70\256\331\364\10\72\302\77\61\243\77\175\371\53\162\5\107\56\254\273\60\162\276\211\115\331"
-  "\354\235\206\7\151\205\373\174\307\322\247\252\51\240\273\147\340\13\146\36\162\141\203\3\103\232\147\222\201\362\246\57"
-  "\71\54\110\364\132\15\37\145\62\214\70\253\315\120\1\216\214\125\227\356\314\352\222\10\151\210\166\255\206\145\60\34"
-  "\165\44\167\177\225\363\145\65\176\372\276\370\261\256\32\362\51\145\224\62\144\243\355\370\150\151\163\313\72\76\343\345"
-  "\36\15\172\110\321\315\171\370\266\16\253\75\242\343\73\135\325\115\104\231\227\62\265\222\266\267\245\23\306\31\103\207"
-  "\265\343\174\20\57\106\301\11\140\322\12\154\242\60\7\233\56\102\246\171\207\61\145\147\257\364\220\256\50\12\105\167"
-  "\76\6\104\225\245\171\101\215\316\121\311\66\171\270\26\204\147\147\264\145\140\355\177\367\127\237\110\135\262\247\107\224"
-  "\302\236\236\40\145\310\132\362\46\42\253\375\207\10\336\335\267\332\77\33\315\31\113\307\260\257\256\271\67\44\277\340"
-  "\153\272\350\102\131\136\205\35\200\165\272\127\145\150\273\12\103\202\211\10\43\372\74\202\202\363\200\276\101\165\63\330"
-  "\330\334\5\147\13\136\233\17\64\33\231\30\314\203\71\202\64\220\267\40\324\150\154\266\376\207\54\361\34\73\246\150"
-  "\162\63\23\11\133\7\26\117\321\63\100\114\206\147\72\171\171\26\10\233\211\313\345\54\375\141\316\272\243\304\106\250"
-  "\57\134\4\172\371\104\112\47\302\56\365\214\246\157\301\363\241\125\0\202\350\32\316\273\124\305\70\357\150\345\347\130"
-  "\161\37\226\267\232\116\260\351\234\261\4\311\50\316\102\217\247\335\162\323\162\313\355\115\136\357\27\163\41\10\224\210"
-  "\162\111\22\166\237\164\56\271\14\117\336\231\3\3\226\173\173\367\366\71\152\11\12\232\235\101\175\146\164\134\10\35"
-  "\233\17\35\162\155\155\157\251\7\251\311\247\146\55\163\223\356\241\65\245\321\265\244\323\267\332\5\36\211\233\217\67"
-  "\361\137\17\107\217\325\241\217\103\307\64\132\215\5\365\375\123\35\41\6\3\75\213\67\153\136\173\357\4\337\3\203"
-  "\331\153\264\144\124\361\27\100\25\16\3\75\213\246\212\221\245\321\102\147\240\12\265\42\155\260\312\276\101\146\7\242"
-  "\52\140\121\200\151\340\143\245\103\212\3\153\214\111\254\367\263\353\274\12\122\277\313\346\4\56\264\320\2\254\350\56"
-  "\11\300\337\51\273\56\55\175\73\275\106\53\156\232\20\7\126\110\173\367\200\370\116\64\242\60\255\323\311\104\3\207"
-  "\11\316\14\134\111\42\335\154\5\246\71\332\75\43\332\353\233\250\13\102\210\33\224\212\324\276\17\340\230\267\174\163"
-  "\7\320\16\362\241\156\361\241\151\20\330\160\234\302\50\101\107\206\110\311\347\131\51\32\270\335\142\100\72\40\336\10"
-  "\12\46\336\312\306\206\63\34\167\76\107\270\102\303\265\20\52\156\172\134\374\114\134\217\53\157\272\327\121\74\3\200"
-  "\372\251\263\0\353\205\64\15\145\317\113\372\312\347\135\323\127\145\223\257\264\270\214\125\375\353\252\276\26\275\55\353"
-  "\53\117\272\223\265\312\113\130\331\227\342\203\113\373\252\350\55\300\126\226\350\307\132\356\46\301\106\360\325\177\32\215"
-  "\326\376\303\356\65\173\53\277\247\235\352\66\323\7\40\25\240\14\52\355\154\352\61\171\363\127\265\251\125\154\360\333"
-  "\207\177\5\250\227\201\240\304\227\71\111\273\44\102\66\371\253\361\230\210\37\116\266\163\302\340\5\216\14\13\272\270"
-  "\36\201\47\365\177\331\72\17\300\314\130\347\312\137\267\322\3\373\366\351\72\210\167\102\202\322\313\274\4\312\334\222"
-  "\350\106\122\332\3\340\341\322\41\14\67\110\241\367\221\331\142\22\110\326\306\40\263\316\3\110\255\43\62\63\42\66"
-  "\73\244\115\313\217\267\27\341\266\61\272\144\50\122\313\36\350\121\177\300\225\344\150\244\33\7\32\32\204\1\266\267"
-  "\304\231\156\254\5\65\132\234\277\212\4\216\167\131\71\276\150\101\344\233\155\43\156\62\304\335\370\202\112\102\257\304"
-  "\251\57\332\2\206\357\57\2\375\354\70\55\331\234\323\60\350\332\315\172\226\303\264\66\242\105\133\31\220\153\236\354"
-  "\371\277\377\355\111\161\164\372\115\26\140\55\207\43\260\237\234\15\60\262\267\274\252\156\144\314\233\55\43\242\314\212"
-  "\62\214\340\11\334\233\156\166\354\7\263\5\332\367\247\164\35\321\267\331\342\52\316\250\146\333\332\326\357\276\325\156"
-  "\177\257\157\302\233\140\151\141\275\176\357\360\361\241\307\303\60\64\366\33\37\350\34\312\225\0\263\335\255\211\61\71"
-  "\255\211\151\223\322\141\317\45\221\367\147\347\320\46\130\201\270\336\130\332\30\142\25\326\262\34\214\355\21\11\46\150"
-  "\141\105\34\76\263\221\317\141\40\346\171\341\107\21\306\357\270\34\55\231\224\24\215\226\377\240\314\74\67\205\137\44"
-  "\310\114\231\123\146\254\150\251\243\143\136\301\363\57\46\63\264\133\235\20\352\103\146\32\146\266\331\262\42\116\146\212"
-  "\163\311\314\363\51\231\171\116\223\231\60\133\360\103\33\117\174\364\334\110\36\101\231\101\353\366\114\142\254\352\134\265"
-  "\172\132\146\164\113\146\314\147\223\31\323\333\102\213\125\44\45\254\245\103\62\323\40\10\360\43\375\245\113\24\266\102"
-  "\334\113\264\11\241\273\355\26\272\203\35\225\266\150\101\344\157\362\163\174\177\173\365\56\137\76\177\127\242\177\220\271"
-  "\70\61\357\203\36\2\344\176\135\326\40\352\223\225\342\263\105\122\175\341\330\363\131\125\342\6\340\214\343\155\333\137"
-  "\274\155\33\21\166\243\305\364\222\23\11\232\62\306\305\226\261\232\322\211\26\104\362\252\51\317\254\51\345\5\150\112"
-  "\305\246\231\36\176\156\115\51\77\263\246\124\67\10\147\174\104\211\354\117\123\66\202\320\146\213\351\245\14\371\300\216"
-  "\212\326\251\10\105\253\142\163\31\116\267\20\62\237\54\377\347\114\157\214\343\24\261\12\153\351\344\220\52\46\7\242"
-  "\250\373\204\304\2\326\55\351\261\244\62\235\40\363\371\40\223\16\201\226\276\134\102\21\54\232\30\227\74\61\24\12"
-  "\367\60\113\105\302\54\345\7\23\117\231\17\117\131\74\24\254\214\317\250\33\274\235\74\174\45\327\67\176\10\54\77"
-  "\313\65\174\62\64\225\335\4\16\206\146\367\257\241\143\236\167\47\157\124\133\237\274\215\155\72\157\266\53\321\345\100"
-  "\347\371\46\174\32\164\312\355\155\365\225\375\364\344\172\76\163\346\363\231\71\204\76\363\371\314\347\71\105\131\253\63"
-  "\34\242\374\11\357\4\54\224\62\132\226\226\247\351\143\75\13\31\44\313\131\355\21\337\136\224\276\155\211\367\223\244"
-  "\270\73\336\73\247\113\345\155\241\42\157\217\273\333\244\36\173\262\71\165\75\134\243\4\364\326\26\242\50\235\246\333"
-  "\341\340\356\153\200\242\52\145\121\304\335\42\262\375\300\211\172\43\343\344\237\67\321\55\6\332\324\330\270\133\121\24"
-  "\122\10\53\351\226\147\206\322\71\131\324\4\240\147\275\342\100\206\301\234\37\167\354\301\142\372\37\230\11\300\0\130"
-  "\12\160\204\215\344\10\55\113\77\124\225\320\205\50\364\142\340\376\274\106\134\51\345\234\262\173\210\324\117\340\10\227"
-  "\235\43\362\343\16\174\142\46\344\351\332\222\230\54\263\306\42\342\367\256\261\212\374\32\213\120\72\73\177\372\213\324"
-  "\130\4\153\377\32\13\263\24\342\210\62\277\306\352\221\43\244\270\70\225\5\220\307\52\153\220\256\263\22\257\30\56"
-  "\215\162\265\142\1\116\166\277\127\103\263\133\305\370\264\30\73\325\302\115\306\345\330\173\375\176\320\237\323\316\311\262"
-  "\50\24\333\257\221\160\126\40\115\46\337\354\304\200\234\107\357\3\234\203\233\276\350\245\164\63\303\167\350\341\53\35"
-  "\151\314\4\215\210\257\15\6\11\52\315\202\15\260\305\202\70\232\357\137\230\327\151\250\257\167\140\330\176\316\272\234"
-  "\127\61\333\70\240\41\7\173\74\371\164\276\244\272\325\130\153\50\201\16\356\274\217\302\103\345\307\43\101\377\367\224"
-  "\45\41\342\324\151\101\174\112\304\341\65\104\371\37\374\5\123\200\113\111\33\163\300\223\330\70\162\347\23\265\202\132"
-  "\14\370\67\31\64\312\32\163\16\326\200\251\16\0\203\27\103\267\144\320\1\340\301\235\364\120\332\364\245\111\333\125"
-  "\332\114\231\117\332\0\367\36\376\0\367\136\202\264\215\274\56\207\312\52\141\312\261\134\14\244\70\250\7\177\153\12"
-  "\157\124\341\334\36\140\255\176\5\161\63\347\20\67\174\30\143\172\70\145\1\300\11\341\124\16\164\161\236\231\73\215"
-  "\151\273\225\0\166\375\57\154\313\42\32\104\237\12\42\130\137\230\163\215\226\71\241\66\357\67\342\125\322\70\243\255"
-  "\50\170\225\121\74\353\224\147\332\247\260\11\75\111\225\30\32\5\363\364\317\131\203\2\131\5\154\340\353\145\367\224"
-  "\230\205\247\102\214\73\135\67\125\211\300\70\350\172\124\1\356\271\340\136\116\202\67\324\64\202\104\30\376\331\217\166"
-  "\252\346\375\56\166\313\63\64\251\327\332\347\277\43\225\272\140\251\202\14\127\244\346\53\3\26\361\7\346\244\57\12"
-  "\363\336\363\143\225\230\63\305\207\113\1\157\163\327\373\145\250\370\272\122\134\102\52\135\102\175\370\256\253\366\325\14"
-  "\231\371\246\271\7\276\161\204\236\305\34\117\175\364\127\77\236\361\340\102\14\72\247\27\125\113\37\75\27\317\262\173"
-  "\36\61\5\267\1\73\0\140\125\354\14\253\257\137\37\252\345\274\172\244\152\72\206\300\171\375\142\245\56\336\57\126"
-  "\372\23\370\305\300\45\232\237\247\106\163\65\233\37\57\317\244\235\257\240\36\223\27\105\342\12\307\63\26\323\111\167"
-  "\236\142\272\364\155\21\273\213\50\305\233\375\314\122\274\115\304\371\241\101\315\107\74\232\41\320\314\33\13\342\370\54"
-  "\77\330\233\260\375\341\107\37\2\253\101\67\371\360\33\330\271\17\101\156\63\167\351\321\152\36\143\61\72\252\250\356"
-  "\241\356\264\36\207\206\6\236\126\302\6\72\144\14\270\313\220\237\31\311\217\355\17\263\0\42\343\247\125\16\104\314"
-  "\245\116\21\131\367\34\150\332\113\230\257\354\130\311\33\174\10\353\227\371\360\74\276\7\141\324\253\357\161\365\75\256"
-  "\276\7\26\262\253\253\161\165\65\176\115\203\254\377\36\6\331\174\112\203\154\57\162\362\176\175\127\143\75\274\246\71"
-  "\256\256\306\317\114\163\140\101\133\17\377\256\151\16\246\22\316\345\203\364\257\127\273\135\354\36\330\263\24\130\52\316"
-  "\315\111\130\215\16\23\322\305\353\223\333\367\27\315\346\37\315\346\370\344\346\376\25\65\371\366\173\256\242\37\337\332"
-  "\237\162\147\264\53\265\62\36\313\163\206\362\12\46\221\161\40\61\105\101\235\321\345\263\335\117\220\1\73\360\214\232"
-  "\110\37\271\65\2\365\371\347\256\7\143\307\242\130\14\354\133\241\262\124\132\151\123\227\51\27\254\137\266\157\204\51"
-  "\276\4\135\233\132\43\64\231\75\47\333\14\51\12\351\214\161\170\17\370\211\56\214\321\136\272\322\5\273\140\44\57"
-  "\52\243\307\336\13\121\330\162\274\370\122\226\356\60\221\325\27\55\310\11\341\250\23\305\343\357\23\242\233\303\326\210"
-  "\325\370\34\306\107\320\33\316\40\160\157\223\375\353\337\142\240\137\67\46\111\367\372\127\34\41\4\357\147\120\167\144"
-  "\46\116\52\241\253\221\233\26\223\305\100\325\35\15\304\255\126\326\72\353\145\211\172\42\361\32\113\153\105\345\275\61"
-  "\226\40\122\102\52\251\254\126\35\40\362\112\371\221\165\336\117\365\150\61\260\157\20\11\43\204\265\126\33\33\17\122"
-  "\65\255\104\141\205\34\51\357\27\3\51\137\141\22\102\24\245\264\332\224\245\211\356\113\351\111\45\305\144\72\231\26"
-  "\242\334\367\165\0\113\337\232\242\324\132\212\303\15\100\26\311\172\377\277\60\125\275\350\56\0\160\302\264\36\252\102"
-  "\216\375\120\115\314\150\361\105\36\46\114\335\32\241\165\151\112\330\21\201\241\206\225\55\307\266\364\303\261\177\353\107"
-  "\355\237\212\322\330\302\305\303\343\204\163\143\71\362\23\41\155\75\125\157\14\344\274\127\136\227\205\212\6\110\217\374"
-  "\330\216\244\252\112\345\325\142\140\336\330\247\50\204\366\322\12\327\347\174\263\73\351\30\12\107\256\204\144\212\36\24"
-  "\251\157\42\236\274\44\231\263\154\167\272\365\263\273\224\154\45\123\307\57\251\373\104\257\272\375\252\333\123\176\271\352"
-  "\366\253\156\137\207\57\262\374\143\271\146\35\254\142\343\61\43\274\54\101\210\230\156\137\222\243\60\300\304\207\131\77"
-  "\72\325\53\374\204\300\2\163\224\41\336\203\373\304\326\47\2\205\25\67\75\321\266\157\360\136\257\357\2\365\372\24"
-  "\116\343\2\376\364\315\176\230\360\104\30\64\155\154\246\302\234\67\376\70\363\56\63\360\141\60\227\260\314\306\150\351"
-  "\40\216\3\60\100\236\135\100\261\176\167\200\12\157\165\351\245\113\227\153\314\72\134\173\246\303\207\130\46\101\262\347"
-  "\223\214\147\341\255\343\22\106\153\276\10\31\225\312\115\257\276\211\313\335\56\117\346\175\127\47\23\275\223\351\65\265"
-  "\173\115\355\166\20\236\356\53\227\74\7\12\335\27\371\32\51\110\43\155\251\34\5\11\114\102\57\46\267\73\237\364"
-  "\225\332\225\252\124\306\110\27\136\51\115\363\15\1\76\11\31\326\135\246\50\174\227\55\12\337\145\212\302\167\371\242"
-  "\360\135\172\24\216\372\272\106\341\104\231\134\121\370\56\117\24\276\313\26\205\357\376\206\31\326\145\272\226\313\264\364"
-  "\210\165\343\22\307\1\274\21\66\230\351\273\16\323\123\302\174\36\263\244\147\257\206\341\152\30\360\57\127\303\160\65"
-  "\14\273\204\364\154\212\145\41\315\264\304\51\247\154\311\113\234\322\305\61\121\316\224\356\13\232\70\154\244\322\115\15"
-  "\37\40\247\251\1\54\104\257\363\344\360\144\172\51\331\341\311\24\237\77\102\57\361\107\211\11\142\372\74\41\103\174"
-  "\265\365\127\133\317\176\271\332\372\253\255\357\313\124\363\225\231\20\110\57\351\346\224\351\135\154\117\231\11\305\233\165"
-  "\42\127\33\72\157\300\341\53\6\262\325\126\324\146\213\23\370\162\266\331\204\137\326\366\111\327\20\244\221\276\54\225"
-  "\63\275\254\41\74\275\244\156\101\11\235\362\316\20\112\337\355\102\113\16\370\70\171\102\206\347\64\360\111\356\134\200"
-  "\322\266\327\340\302\361\224\265\22\166\102\176\55\240\167\263\320\25\231\264\275\45\360\351\343\23\372\24\140\104\64\114"
-  "\5\214\257\201\246\103\311\103\212\304\333\64\12\251\275\262\312\177\244\150\136\51\157\254\61\237\255\150\36\137\171\102"
-  "\347\363\261\22\373\176\153\104\31\100\261\353\244\336\227\336\272\17\114\176\15\155\341\175\210\177\360\121\232\223\144\377"
-  "\201\57\245\45\160\6\11\122\6\30\160\240\267\11\53\344\0\127\361\261\322\121\114\357\52\1\105\276\355\4\337\341"
-  "\130\110\45\104\34\53\251\144\162\371\143\70\336\132\106\260\44\362\340\141\40\27\347\141\47\35\41\152\203\20\116\3"
-  "\11\300\304\23\117\377\222\165\125\234\107\157\361\127\0\354\216\333\335\177\356\272\313\366\245\123\77\322\145\352\110\253"
-  "\114\35\31\237\251\43\147\62\165\344\211\330\27\236\112\131\311\17\242\232\213\366\52\27\355\115\56\106\267\271\30\275"
-  "\40\106\277\214\71\127\334\176\115\122\17\260\335\200\47\1\46\133\51\0\60\210\11\100\340\302\121\313\162\170\162\176"
-  "\134\101\350\164\146\114\260\57\205\113\161\167\351\165\11\215\144\124\300\274\121\214\211\56\361\44\276\210\113\217\251\146"
-  "\176\154\173\200\42\275\70\367\241\231\336\372\176\72\33\166\267\75\135\140\73\333\262\202\333\146\273\365\373\327\257\353"
-  "\72\252\152\74\370\135\212\346\263\335\135\142\306\215\374\226\272\337\63\136\25\305\345\211\306\353\130\110\233\224\321\133"
-  "\5\356\224\330\166\41\120\115\370\63\322\150\313\240\243\41\21\231\370\267\167\333\144\62\155\143\156\343\170\344\312\40"
-  "\370\16\73\354\236\227\61\153\311\157\4\143\57\203\244\347\217\217\45\75\71\352\104\132\200\347\266\147\74\23\62\241"
-  "\333\14\231\320\176\153\326\267\154\155\237\57\202\100\14\266\150\2\126\340\30\41\114\23\55\100\217\212\367\110\204\151"
-  "\312\336\367\70\226\114\44\356\171\16\216\374\176\372\150\310\300\235\37\241\43\26\267\340\230\302\34\33\13\10\147\352"
-  "\155\20\352\156\200\373\153\240\210\225\147\242\170\140\170\305\1\136\264\57\24\227\322\2\61\12\172\176\253\352\261\32"
-  "\343\335\126\111\353\113\1\301\10\164\200\104\300\65\271\132\212\146\273\154\66\175\263\131\104\310\100\161\123\177\126\367"
-  "\164\350\235\106\334\323\202\172\110\332\155\307\271\317\43\156\246\376\6\121\35\226\107\341\123\223\262\30\27\123\255\225"
-  "\234\250\367\22\10\155\235\54\215\51\303\275\111\301\341\13\365\67\210\351\320\335\220\15\157\316\243\154\315\253\155\265"
-  "\115\253\255\133\155\254\336\16\57\35\276\74\164\167\30\203\6\176\103\130\45\234\0\311\311\246\71\331\102\335\14\116"
-  "\365\223\127\165\312\354\272\63\160\242\151\202\270\177\122\175\11\274\362\206\23\206\57\23\247\220\346\241\375\211\3\273"
-  "\2\23\250\302\62\12\351\173\36\160\235\1\307\150\340\130\77\270\322\40\161\63\144\74\266\133\260\146\321\313\112\54"
-  "\360\255\71\56\114\100\111\157\266\355\151\331\152\373\126\33\233\320\303\113\207\57\17\335\321\30\365\340\307\173\330\205"
-  "\24\214\17\274\333\363\205\331\273\273\256\140\340\253\44\171\217\167\114\4\336\3\177\117\77\155\236\226\341\53\54\123"
-  "\156\310\304\25\317\114\375\4\347\253\114\66\130\214\272\270\236\137\277\52\56\245\214\63\256\56\225\225\16\236\106\302"
-  "\200\46\366\74\313\370\351\324\140\100\343\153\314\356\362\36\114\173\167\272\234\360\376\222\117\40\270\317\130\75\230\361"
-  "\260\150\220\303\211\337\134\301\223\220\374\102\377\344\53\20\357\170\236\237\17\25\137\0\126\50\57\12\367\241\2\60"
-  "\255\265\226\252\303\146\312\161\61\222\123\75\36\216\13\243\365\136\310\204\54\337\53\300\212\113\255\0\343\357\377\24"
-  "\107\242\332\54\276\113\176\300\113\342\301\30\220\323\322\353\242\326\247\353\312\327\211\37\344\50\130\42\375\315\107\204"
-  "\251\317\170\114\362\3\237\124\33\17\230\302\53\253\255\51\243\325\317\245\111\3\46\103\317\207\320\20\131\135\51\71"
-  "\131\323\227\122\320\120\11\365\343\254\267\201\364\136\73\135\70\335\274\124\342\107\122\51\171\272\331\354\221\263\210\173"
-  "\0\233\241\2\63\56\32\57\370\300\125\374\1\344\346\144\23\313\307\301\67\342\345\163\143\57\377\244\254\331\145\372"
-  "\251\174\322\172\367\371\12\51\204\224\326\202\56\56\336\141\112\77\236\26\155\212\303\64\224\126\50\151\243\247\341\45"
-  "\60\341\311\150\44\370\140\57\135\16\302\304\121\325\245\361\11\344\22\154\300\60\71\323\73\303\324\315\355\375\45\101"
-  "\174\365\14\257\236\341\325\63\214\107\256\17\257\221\357\216\236\315\247\135\156\47\114\165\373\2\325\237\367\360\300\324"
-  "\100\275\346\305\326\142\336\147\254\305\354\77\77\212\63\223\374\313\164\327\203\57\314\165\356\12\157\324\355\37\62\274"
-  "\236\321\213\237\236\377\372\262\40\46\171\75\334\115\256\171\313\227\34\303\247\33\247\345\107\57\300\204\345\17\220\122"
-  "\23\305\335\277\206\211\135\130\66\300\267\101\362\361\6\277\322\274\221\167\300\227\207\362\23\33\227\62\244\252\141\336"
-  "\141\272\205\2\33\146\10\122\260\231\46\176\303\314\270\232\75\376\366\257\367\63\363\264\134\377\366\117\165\353\237\376"
-  "\15\366\234\116\351\262\272\17\70\354\364\361\351\151\111\343\36\232\37\35\370\320\11\34\171\371\364\143\76\241\221\17"
-  "\315\264\221\203\174\176\350\23\2\262\136\356\377\235\0\71\64\77\112\202\103\47\160\344\171\65\134\216\266\173\1\246"
-  "\321\337\37\175\24\202\272\243\152\265\306\14\260\334\17\115\343\37\232\241\261\337\232\325\142\275\254\45\6\102\303\236"
-  "\324\137\6\147\353\60\64\204\367\161\322\200\267\156\42\170\347\151\300\316\203\220\256\366\317\106\163\10\352\353\153\4"
-  "\353\153\373\102\201\375\376\64\231\22\250\165\13\0\72\113\346\202\331\51\56\250\107\306\114\273\177\213\200\255\133\0"
-  "\330\155\234\364\304\357\170\251\307\304\140\16\107\53\2\263\156\175\124\252\367\135\140\113\362\264\330\256\146\337\346\64"
-  "\362\237\117\316\104\44\2\357\317\201\40\214\365\141\240\4\137\335\372\50\145\352\76\340\260\213\247\27\32\165\337\350"
-  "\233\153\366\103\142\5\367\364\215\140\334\67\62\333\304\175\217\61\40\110\321\0\102\212\374\140\110\1\1\151\250\172"
-  "\122\364\271\200\210\261\67\7\137\231\200\70\64\363\203\361\135\106\350\274\341\206\340\250\133\210\173\23\241\132\315\207"
-  "\163\260\7\20\106\304\133\320\155\102\252\0\52\237\75\105\42\210\70\233\23\21\353\326\225\210\115\42\316\42\224\367"
-  "\137\151\270\157\144\26\207\175\217\21\66\156\105\40\354\33\231\101\330\367\210\303\206\341\234\100\330\67\62\203\260\36"
-  "\142\52\14\33\63\61\314\77\25\165\227\30\212\306\144\14\363\317\106\335\45\206\242\61\37\303\374\23\122\167\31\5"
-  "\205\152\202\241\10\216\216\347\137\60\11\215\7\124\305\10\361\135\103\212\357\362\213\361\135\214\34\337\65\4\71\67"
-  "\24\165\227\61\242\374\27\50\352\126\176\141\76\6\305\376\277\377\37";
-
-/* lib/stat.wo (DEFLATEd, org. size 9195) */
-static unsigned char file_l_40[1077] =
-  "\264\227\313\156\343\40\24\206\367\43\315\73\240\310\213\144\123\371\156\22\251\317\202\210\215\123\64\30\54\300\155\347\355"
-  "\307\70\27\142\202\144\63\162\273\110\71\77\234\303\377\301\151\354\356\73\321\14\214\200\110\151\254\177\377\2\140\117"
-  "\273\136\110\15\166\265\324\73\260\123\175\264\3\373\13\23\147\314\100\64\152\247\121\1\373\156\320\200\146\351\341\160"
-  "\360\344\164\244\23\362\357\230\166\35\134\323\156\343\330\146\54\355\142\66\160\126\177\141\105\221\342\270\127\37\102\243"
-  "\136\222\117\112\276\222\261\100\333\240\226\62\142\40\320\205\350\261\130\73\360\32\104\376\204\223\263\34\354\173\54\161"
-  "\67\155\70\37\113\242\6\346\240\56\130\351\261\376\100\265\44\130\23\324\120\111\152\75\162\57\31\362\46\271\266\66"
-  "\265\30\164\136\57\11\353\254\205\133\126\132\122\176\331\115\3\106\370\303\327\125\77\135\325\265\305\210\224\134\354\356"
-  "\277\155\177\115\361\151\372\364\364\130\133\163\315\114\113\121\336\40\111\230\141\177\370\230\46\117\317\123\353\51\55\13"
-  "\326\47\115\73\163\230\135\217\264\100\123\320\223\332\54\2\367\42\321\143\11\240\145\176\170\310\375\265\244\215\271\272"
-  "\12\267\154\46\152\3\111\223\150\222\255\220\106\317\353\46\365\355\102\264\251\370\54\151\102\246\154\167\231\365\63\315"
-  "\230\132\157\265\340\112\203\44\276\377\114\63\306\356\33\371\326\204\67\150\134\204\224\125\33\372\211\6\33\52\55\44"
-  "\1\242\155\25\321\357\61\300\214\136\370\73\174\365\307\325\253\301\364\107\14\112\322\241\301\246\177\111\334\243\121\267"
-  "\212\327\362\155\136\22\75\110\156\306\257\327\55\120\77\234\31\255\221\11\347\367\114\371\374\102\305\240\203\56\324\12"
-  "\231\53\344\256\120\270\102\351\12\225\53\100\127\70\272\102\22\373\73\313\240\254\153\55\312\355\25\60\201\33\177\117"
-  "\4\364\214\335\331\166\1\264\2\156\32\117\107\255\367\5\267\364\225\224\13\306\262\365\306\322\174\113\147\131\272\340"
-  "\54\137\357\54\113\3\235\55\227\314\203\140\362\330\205\131\114\51\163\117\312\230\300\26\276\304\127\332\207\101\366\141"
-  "\270\175\370\223\366\213\62\304\176\121\6\333\257\322\377\266\177\36\53\377\1\121\22\315\102\70\17\253\171\130\316\303"
-  "\142\36\346\363\60\233\207\336\257\16\353\336\34\33\104\303\375\344\222\373\311\45\56\362\223\240\206\363\155\13\211\64"
-  "\76\63\142\166\61\33\33\57\306\236\161\154\40\14\227\105\45\274\361\330\361\236\157\232\57\374\165\27\156\231\207\146"
-  "\261\174\217\102\147\227\242\52\255\50\344\272\147\351\131\72\114\331\66\114\245\207\251\14\145\202\311\61\335\0\51\337"
-  "\6\251\362\40\125\241\110\111\231\301\174\3\246\142\33\46\350\141\202\241\114\131\132\225\160\3\246\362\71\250\266\1"
-  "\74\172\0\217\241\200\371\61\51\266\150\104\270\15\123\22\273\165\254\30\102\25\37\313\170\3\52\23\54\274\226\267"
-  "\346\23\354\311\367\355\137\77\23\356\16\363\327\363\266\371\327\236\131\340\66\0\303\120\364\102\243\342\171\312\314\355"
-  "\375\265\130\372\222\222\127\205\306\220\255\350\260\363\277\251\310\267\256\314\357\30\252\133\202\171\274\204\101\362\344\204"
-  "\250\171\41\201\206\132\156\52\235\251\376\21\350\362\152\162\67\107\246\63\103\27\270\22\215\273\162\134\321\352\213\23"
-  "\157\327\164\103\221\272\311\123\227\26\140\200\45\151\360\356\114\203\101\157\340\141\360\60\143\17\17\66\207\271\76\57"
-  "\260\305\212\311\241\63\277\160\300\341\217\35\56\203\353\202\332\201\114\203\154\104\227\114\206\257\14\204\230\134\122\47"
-  "\365\33\313\122\206\244\51\240\215\325\112\110\244\360\373\370\266\330\215\227\131\162\355\254\227\206\376\171\302\361\56\331"
-  "\111\332\340\25\113\227\34\336\51\45\317\374\34\45\217\26\344\314\260\327\221\115\306\160\16\121\374\134\206\242\230\120"
-  "\244\100\261\260\302\100\261\342\371\73\115\124\63\121\241\123\207\117\207\61\252\360\352\256\56\277\230\175\257\221\351\14"
-  "\77\313\310\220\117\71\332\334\27\302\101\20\351\53\2\102\132\31\246\376\303\357\107\266\267\175\252\41\37\316\222\16"
-  "\304\73\371\41\47\372\261\74\330\205\104\330\375\60\46\64\46\64\46\164\276\206\11\373\255\73\203\317\5\11\352\203"
-  "\326\375\161\66\257\311\377\242\261\316\373\203\32\65\324\374\242\374\167\202\30\142\226\33\54\203\4\0\1\70\124\134"
-  "\377\273\315\143\63\217\315\74\32\270\140\17\205\323\367\333\103\367\170\5";
-
-/* lib/stdio.wo (DEFLATEd, org. size 192049) */
-static unsigned char file_l_41[13209] =
-  "\354\227\327\222\363\46\24\307\257\323\336\201\321\350\142\113\212\333\370\163\172\357\345\46\75\361\214\7\13\360\236\54\2"
-  "\5\320\266\247\17\6\331\310\110\356\116\367\14\263\13\77\161\376\247\350\170\4\27\271\44\45\247\50\325\206\200\174"
-  "\351\171\204\56\40\57\244\62\50\311\224\111\120\242\213\64\101\27\63\56\247\230\243\324\262\67\54\101\27\171\151\20"
-  "\364\173\227\227\227\55\66\71\315\245\172\264\146\176\342\315\252\171\47\130\154\365\142\35\104\273\357\261\206\211\26\270"
-  "\320\67\322\114\12\105\357\200\336\167\255\100\201\315\315\104\121\201\163\152\205\130\51\62\224\266\157\176\243\266\25\135"
-  "\24\130\341\334\71\72\156\256\250\56\171\153\111\250\122\102\46\213\377\41\111\267\176\303\375\155\111\64\63\217\5\265"
-  "\126\240\11\314\300\54\163\162\374\215\212\156\17\41\26\323\5\316\150\54\346\351\276\142\106\162\171\117\125\44\126\321"
-  "\135\305\264\121\40\146\276\145\262\233\40\346\371\33\236\36\371\6\202\23\73\341\124\304\116\74\75\104\214\52\45\33"
-  "\61\127\374\260\22\144\305\143\254\127\341\123\266\244\66\204\303\324\347\140\44\11\36\35\177\303\323\255\302\154\70\330"
-  "\54\314\171\103\331\343\375\342\337\346\246\134\343\247\74\241\43\246\50\215\235\314\131\135\150\235\155\216\71\227\131\154"
-  "\355\351\336\157\14\33\372\0\46\26\363\164\127\61\226\11\303\255\226\54\152\77\6\7\337\230\243\272\314\276\222\14"
-  "\4\231\50\312\13\154\156\42\351\372\243\103\134\224\2\154\266\326\207\242\70\264\254\247\157\314\131\54\172\260\203\173"
-  "\5\206\306\36\34\74\231\13\256\51\275\215\135\70\330\52\73\34\154\157\331\330\105\306\245\156\144\341\340\336\321\202"
-  "\306\306\74\306\132\236\356\55\126\12\16\342\26\233\130\156\301\117\126\143\225\23\120\115\77\25\336\135\72\174\262\335"
-  "\31\351\15\20\140\0\163\170\242\44\234\203\320\205\375\373\152\46\205\66\313\43\16\301\6\57\214\46\40\247\350\202"
-  "\76\370\30\347\253\344\22\335\141\205\254\320\114\274\75\100\311\270\323\331\163\164\143\162\342\321\373\223\175\15\143\137"
-  "\347\161\36\347\161\36\347\161\36\177\371\110\232\37\155\242\7\335\24\371\217\272\377\116\167\121\362\371\67\237\174\376"
-  "\315\347\337\375\274\326\244\327\60\371\346\375\157\56\256\56\333\15\12\171\337\355\324\116\2\243\326\223\0\353\274\333"
-  "\244\351\173\115\366\163\314\336\33\217\130\143\337\150\64\316\372\61\375\155\314\106\253\154\144\307\340\325\367\127\30\351"
-  "\214\273\275\154\225\215\6\143\362\154\374\372\263\25\112\307\31\261\343\375\326\42\15\233\165\25\130\254\53\351\260\131"
-  "\122\46\340\225\265\333\373\155\333\257\327\156\37\264\155\17\273\227\67\55\220\356\22\303\212\71\106\53\7\105\124\41"
-  "\56\63\314\121\312\212\72\235\132\172\213\322\136\352\227\212\262\127\343\243\241\177\342\254\137\325\324\314\25\26\110\26"
-  "\50\355\246\365\15\63\277\141\233\132\70\220\16\7\235\200\60\41\141\301\315\244\14\53\372\373\123\25\261\232\0\363"
-  "\21\327\22\350\267\106\21\264\44\46\110\62\246\251\171\273\73\134\34\154\343\130\272\375\156\100\130\220\370\171\247\36"
-  "\116\65\147\33\262\67\245\22\176\116\235\230\237\154\15\326\73\353\367\342\272\264\277\205\251\12\357\300\252\107\213\136"
-  "\332\110\42\216\256\321\111\376\46\206\71\217\33\7\216\357\34\330\332\72\360\317\350\35\70\121\363\260\365\332\226\360"
-  "\345\217\327\325\334\163\242\144\261\163\333\300\376\175\3\373\64\116\173\237\304\267\315\325\116\201\156\352\72\45\200\136"
-  "\132\157\35\177\147\365\31\304\112\244\345\265\1\153\64\161\250\140\164\347\17\26\273\166\121\167\270\266\140\206\122\227"
-  "\115\134\367\300\376\150\357\113\264\333\306\231\164\137\245\317\264\357\332\47\71\4\167\146\36\306\107\226\304\104\167\24"
-  "\111\107\224\223\364\74\375\245\105\147\352\7\76\214\76\225\101\310\264\232\263\374\177\0\213\130\12\265\243\252\340\342"
-  "\107\42\350\341\342\252\364\354\217\362\357\356\264\77\256\361\153\71\176\147\261\301\33\47\230\242\200\113\352\201\113\172"
-  "\43\270\310\56\375\214\113\200\144\271\41\205\300\140\267\26\152\166\136\324\224\331\51\151\264\307\365\213\277\122\334\52"
-  "\257\35\203\334\376\343\267\127\347\241\335\154\317\267\75\226\257\347\241\277\370\262\172\104\152\137\20\354\207\355\163\147"
-  "\223\335\276\335\56\276\72\175\355\152\150\123\132\225\216\314\355\310\335\216\312\355\50\335\216\302\355\250\103\71\202\34"
-  "\61\174\41\347\304\305\154\42\35\273\65\225\351\127\260\354\155\267\206\337\212\156\6\62\234\54\225\252\37\26\106\40"
-  "\122\313\232\354\361\5\363\370\54\262\274\200\351\172\224\126\116\105\24\27\371\265\110\162\143\13\366\302\156\346\36\261"
-  "\217\212\14\256\231\157\304\134\22\271\362\211\260\305\372\261\163\171\233\201\317\66\6\224\267\246\362\213\42\1\243\245"
-  "\350\144\60\200\61\271\152\204\334\63\102\243\32\41\175\20\165\243\270\254\232\246\145\235\127\151\226\46\0\212\201\223"
-  "\201\336\42\172\21\16\224\65\105\221\351\6\302\315\226\225\111\352\272\314\65\343\310\66\31\356\2\302\226\175\123\324"
-  "\343\12\60\122\205\111\233\326\32\273\266\247\62\306\151\47\166\273\231\36\71\40\302\344\331\5\15\4\121\261\101\144"
-  "\116\23\305\10\2\245\341\314\255\103\107\200\11\222\330\152\127\126\24\171\76\140\271\50\76\14\301\152\231\113\226\301"
-  "\47\63\145\126\347\1\23\131\133\254\145\363\75\162\242\211\142\365\12\66\373\205\216\177\365\42\70\345\322\27\64\317"
-  "\26\55\163\313\364\353\364\42\204\210\336\64\41\272\260\317\66\133\161\155\26\46\306\221\163\17\63\321\217\13\224\103"
-  "\366\123\135\343\242\250\311\40\345\65\203\230\224\214\122\4\3\100\6\41\166\211\152\310\62\174\110\16\34\146\203\325"
-  "\1\134\107\234\24\370\53\275\252\231\326\242\375\301\37\201\236\330\252\101\376\302\242\273\365\166\275\74\201\241\114\200"
-  "\115\371\45\314\4\73\217\11\160\61\103\374\200\114\354\375\262\245\135\340\224\145\376\171\375\353\324\17\364\330\377\355"
-  "\21\126\237\12\53\266\143\100\164\343\225\271\360\143\276\241\120\333\13\206\125\231\132\304\240\167\314\171\237\61\177\321"
-  "\220\7\303\135\126\60\174\251\60\231\4\26\342\152\270\142\13\53\147\17\53\257\107\142\245\330\202\370\206\303\275\12"
-  "\334\147\300\375\16\265\333\321\270\35\46\201\36\163\73\127\4\372\4\200\245\23\273\377\366\252\215\211\246\332\170\57"
-  "\47\342\313\314\354\135\64\252\162\14\215\252\10\327\250\106\122\51\67\271\132\375\211\257\244\335\263\63\250\272\312\31"
-  "\124\5\71\203\310\10\51\167\6\221\21\162\346\14\32\135\33\336\324\332\33\11\243\271\220\40\56\251\310\252\30\334"
-  "\26\12\204\303\0\331\170\0\331\150\1\231\352\1\371\61\135\151\323\167\235\231\204\371\316\360\147\350\74\223\43\112"
-  "\320\363\25\212\162\306\214\21\302\361\11\115\105\264\122\365\110\211\356\267\140\257\230\302\376\20\213\107\224\367\241\15"
-  "\312\73\277\46\354\377\42\335\26\350\20\157\372\337\372\27\253\17\213\221\261\270\212\32\61\364\102\73\164\316\375\1"
-  "\0\16\270\5\43\266\154\273\175\356\276\41\74\370\41\340\106\122\101\135\24\32\142\63\353\75\247\171\356\336\217\133"
-  "\131\202\12\134\222\75\152\16\77\227\175\361\373\133\74\37\375\34\314\152\2\165\137\341\275\31\25\103\323\242\14\103"
-  "\376\34\121\306\312\43\123\234\32\154\25\203\115\206\124\333\317\355\146\273\365\263\10\306\10\173\150\77\75\267\310\366"
-  "\204\245\5\206\66\20\47\104\171\265\23\42\32\373\31\301\32\65\17\1\110\36\140\233\247\74\246\50\230\45\324\272"
-  "\125\13\271\206\203\325\143\143\45\231\245\300\133\51\226\174\155\121\330\343\230\76\204\220\305\231\4\61\214\237\144\124"
-  "\337\120\361\240\166\113\20\226\274\77\336\24\3\313\211\22\166\365\36\204\255\227\133\65\367\60\350\267\101\26\312\145"
-  "\336\343\213\270\354\245\236\250\377\277\173\364\6\200\304\161\213\105\260\130\55\245\153\2\242\123\72\232\167\17\23\44"
-  "\107\252\317\14\220\345\210\72\63\252\65\204\72\3\102\45\174\226\264\326\353\46\267\14\270\66\1\54\30\54\31\260"
-  "\132\307\74\260\322\17\311\71\315\302\13\254\2\201\205\341\344\234\22\67\227\15\361\211\344\140\214\51\272\322\150\242"
-  "\53\276\207\205\306\31\363\5\244\143\50\325\335\363\323\45\107\115\57\107\375\243\243\231\240\367\350\4\372\61\144\205"
-  "\350\31\352\373\107\14\126\323\137\24\342\361\12\274\143\336\114\242\364\376\272\26\37\130\70\315\161\323\1\346\30\307"
-  "\2\61\112\115\331\276\121\170\166\177\1\62\220\20\37\131\47\112\127\275\175\132\352\355\40\36\261\207\174\74\232\35"
-  "\147\112\255\301\44\175\12\74\120\31\242\23\120\13\243\337\356\176\112\141\175\152\43\222\210\144\274\110\345\241\26\234"
-  "\106\130\272\331\142\45\326\341\271\351\232\206\275\231\141\107\166\165\275\15\144\367\54\367\317\273\223\76\361\354\164\264"
-  "\255\266\335\166\335\236\234\256\361\354\113\200\173\277\61\220\305\375\232\340\167\57\373\215\232\123\65\300\57\132\226\23"
-  "\314\104\166\370\375\171\13\160\71\37\15\130\26\140\53\300\202\2\322\356\25\322\167\313\244\257\150\56\266\143\4\151"
-  "\306\157\6\160\50\332\60\102\330\242\124\365\253\55\344\373\325\346\307\343\63\176\200\347\36\254\202\30\275\12\302\355"
-  "\357\110\132\234\130\135\74\162\120\273\51\232\255\34\101\257\102\123\122\117\56\110\302\127\42\354\316\153\247\267\374\153"
-  "\231\5\227\14\274\225\154\243\226\155\340\362\344\76\260\7\357\341\357\253\46\332\301\11\0\337\17\247\31\140\153\322"
-  "\107\16\212\54\65\246\175\245\130\230\216\64\365\350\266\6\164\3\236\313\230\235\114\304\127\217\22\16\75\66\21\352"
-  "\244\14\165\67\361\62\232\153\114\117\213\156\75\226\176\244\165\13\0\107\31\226\23\114\321\303\60\344\154\106\221\147"
-  "\144\342\320\200\364\160\167\156\224\230\41\342\321\42\47\241\117\223\102\152\103\147\211\4\14\301\366\140\224\160\177\227"
-  "\27\115\167\350\316\32\350\62\112\110\216\130\252\172\371\21\327\371\240\272\267\120\162\271\323\362\333\177\50\170\34\141"
-  "\141\23\270\313\43\76\14\44\140\14\153\106\227\125\170\24\143\302\157\356\124\307\34\206\304\343\304\343\232\212\0\123"
-  "\215\343\37\364\302\266\16\361\343\23\37\105\64\251\45\310\27\314\76\231\234\215\177\157\103\220\53\200\105\76\236\157"
-  "\16\355\0\215\241\13\43\64\226\152\377\332\323\301\341\244\355\201\152\207\46\106\270\106\355\217\337\360\161\364\327\147"
-  "\122\120\325\74\74\220\37\43\207\222\3\224\357\72\370\216\317\176\6\34\241\161\24\171\74\226\16\31\262\314\200\173"
-  "\306\265\43\367\346\376\271\61\313\136\326\351\345\53\365\222\363\312\0\276\107\110\136\356\345\236\321\21\371\101\175\143"
-  "\172\67\22\347\237\156\54\151\215\167\170\176\367\27\271\371\203\245\373\251\0\227\23\116\5\234\262\226\214\232\321\114"
-  "\47\116\142\251\52\21\272\370\360\300\176\102\226\127\122\345\3\67\117\364\350\23\271\130\215\76\22\2\205\7\267\13"
-  "\345\207\2\307\350\370\34\77\74\71\276\141\31\16\12\164\317\215\254\274\212\240\40\76\77\5\373\40\127\24\372\0"
-  "\204\370\241\60\145\140\50\214\302\332\120\11\336\112\51\170\25\361\20\121\5\157\175\221\163\16\131\334\165\17\66\275"
-  "\54\256\271\54\306\233\147\276\12\206\335\142\272\10\161\12\236\53\44\160\0\365\146\50\350\302\5\261\77\114\342\114"
-  "\313\142\244\15\355\51\7\112\54\345\33\375\325\300\175\105\112\350\347\342\26\336\124\242\61\364\176\15\275\355\45\206"
-  "\124\264\374\150\142\61\7\235\243\100\13\163\310\140\167\170\250\1\32\46\122\11\254\7\325\114\220\35\73\266\237\335"
-  "\172\162\71\24\250\51\206\337\35\341\117\270\2\202\302\200\305\50\354\256\216\277\41\231\35\243\105\111\111\63\267\306"
-  "\52\342\371\102\201\3\10\206\14\222\5\265\113\304\330\360\110\55\321\242\357\74\122\13\352\32\141\41\33\51\322\363"
-  "\236\61\74\162\372\204\311\221\60\35\205\207\137\372\342\6\252\334\101\340\17\105\5\44\126\371\210\353\154\261\63\326"
-  "\246\236\15\104\122\322\303\224\273\201\345\131\117\204\163\245\210\53\53\334\45\41\343\160\45\225\273\143\302\243\360\242"
-  "\5\135\265\207\347\123\47\46\334\271\351\132\160\235\332\64\333\255\366\273\265\322\22\73\70\77\330\235\256\265\324\150"
-  "\271\332\141\75\321\356\252\270\165\23\201\212\71\127\232\265\255\367\324\266\360\127\341\52\16\327\71\272\253\155\4\140"
-  "\255\313\303\337\0\305\67\276\357\163\200\36\70\60\242\104\2\1\123\172\342\346\332\364\365\45\256\346\305\326\227\204"
-  "\127\362\101\71\203\125\242\117\200\6\205\54\162\2\304\55\377\100\360\252\365\206\116\173\44\235\106\147\360\252\173\235"
-  "\207\123\364\377\265\135\357\140\262\136\132\217\341\27\202\115\312\300\350\23\302\33\44\374\52\74\136\323\326\217\374\352"
-  "\21\252\103\270\263\220\207\4\345\20\104\147\213\200\256\240\267\217\267\334\45\7\364\120\57\102\100\75\264\5\330\372"
-  "\120\331\61\242\6\170\14\251\106\40\351\157\362\325\17\266\211\162\66\112\370\175\316\1\140\235\105\44\230\207\277\336"
-  "\21\136\355\55\366\72\302\102\132\45\211\340\231\56\65\334\100\26\331\222\172\225\327\24\44\16\260\41\130\131\324\233"
-  "\117\316\176\372\111\227\302\175\316\115\65\363\341\126\152\270\342\32\77\314\301\114\42\314\341\143\247\251\152\202\0\323"
-  "\242\270\310\362\24\131\333\374\75\135\21\311\266\327\147\31\36\131\215\270\237\315\304\60\23\103\214\150\311\115\26\30"
-  "\340\23\20\315\303\345\110\147\313\21\264\30\130\100\14\43\66\164\227\166\11\270\133\243\125\240\104\343\6\215\317\4"
-  "\75\220\350\361\367\166\52\75\103\362\211\350\45\342\350\344\343\143\6\46\250\270\167\131\254\243\113\260\53\364\145\54"
-  "\321\7\347\162\33\367\137\156\3\211\130\115\5\133\222\362\14\63\205\224\112\223\75\220\54\372\116\157\262\1\250\47"
-  "\342\167\357\124\156\365\160\177\243\276\126\243\364\115\331\63\317\53\205\304\367\314\23\254\0\131\205\336\144\102\270\73"
-  "\56\151\65\76\145\104\46\376\16\261\122\15\354\22\256\220\75\357\154\313\176\150\337\324\332\341\105\327\226\21\334\271"
-  "\21\312\136\107\210\136\216\355\20\333\362\30\326\251\247\231\47\212\264\373\60\257\237\202\43\306\317\334\214\137\126\74"
-  "\376\335\154\220\132\311\47\214\156\157\307\257\116\34\46\22\257\271\127\172\171\334\121\330\377\271\211\216\135\233\375\17"
-  "\363\72\175\307\315\327\315\216\212\205\45\106\65\115\377\45\210\11\4\307\143\151\223\370\325\165\257\13\32\30\16\36"
-  "\234\266\140\305\114\367\12\52\362\75\240\142\131\43\24\154\104\327\335\360\11\206\115\362\223\104\51\252\211\151\172\163"
-  "\304\203\372\321\132\163\351\321\332\341\207\77\217\213\303\143\77\216\45\141\110\134\251\234\34\207\51\212\16\64\21\344"
-  "\253\361\364\320\264\16\275\201\136\162\217\137\30\131\21\34\21\105\64\352\124\321\362\334\0\227\276\52\167\62\231\310"
-  "\270\103\200\262\21\325\237\161\100\110\207\107\206\104\246\102\305\311\106\170\371\156\372\117\327\205\227\307\327\113\26\344"
-  "\340\27\344\13\112\106\255\224\101\131\102\253\70\0\356\52\214\276\150\105\1\133\305\313\302\112\137\177\345\335\361\374"
-  "\156\104\6\353\213\354\301\155\302\371\314\35\322\53\312\11\135\220\326\201\373\55\25\41\130\247\365\166\53\226\372\271"
-  "\251\17\301\262\215\367\327\276\305\352\377\75\167\322\247\217\23\345\22\30\215\301\150\241\241\321\35\275\170\353\33\0"
-  "\43\257\245\60\34\110\74\346\316\367\2\213\211\20\272\372\117\362\11\104\160\116\107\166\316\23\344\224\205\5\370\235"
-  "\247\352\41\20\26\44\222\107\361\214\33\361\24\10\14\101\50\123\167\1\14\315\5\307\161\375\163\263\133\211\344\30"
-  "\332\42\72\142\75\153\37\244\66\306\307\211\344\2\116\310\142\242\110\250\111\77\260\71\201\152\364\237\362\6\230\347"
-  "\264\155\202\10\341\21\0\23\65\110\24\61\231\207\275\23\225\331\167\260\153\40\311\121\347\332\146\231\63\155\23\370"
-  "\314\75\253\237\263\372\71\253\237\263\372\71\253\237\104\331\44\323\110\157\200\12\112\106\46\212\51\177\263\115\24\26"
-  "\352\323\361\362\323\372\55\145\133\72\127\242\165\52\211\246\210\140\360\11\270\203\64\47\36\325\40\7\46\247\340\223"
-  "\27\365\105\34\220\221\346\370\210\10\22\144\16\130\220\250\157\274\76\106\346\65\5\276\56\74\355\371\111\32\376\60"
-  "\203\71\14\200\10\241\17\37\34\300\366\167\17\41\3\342\77\233\170\20\201\54\165\16\53\210\351\75\232\303\12\270"
-  "\253\161\16\24\230\3\5\346\100\201\111\120\140\374\253\177\246\5\150\3\2\372\345\376\260\236\1\174\355\140\126\56"
-  "\74\71\361\175\277\132\143\316\75\261\204\107\172\10\260\104\103\127\157\327\302\72\22\350\61\320\203\253\317\240\47\207"
-  "\236\2\172\176\357\140\122\226\137\256\40\371\24\164\266\200\267\214\303\74\264\105\71\246\121\55\142\147\273\171\372\322"
-  "\36\327\153\115\312\123\36\162\3\47\22\4\106\11\276\140\10\160\227\120\16\74\235\53\300\54\55\124\262\15\113\275"
-  "\111\263\260\233\371\305\32\276\351\3\343\356\3\307\164\74\350\222\135\234\303\0\271\156\0\134\101\251\33\101\266\144"
-  "\327\317\225\241\47\160\241\231\7\75\367\241\247\327\162\24\172\55\306\240\327\142\34\172\205\104\363\14\213\42\207\36"
-  "\165\300\113\150\210\254\232\343\206\207\167\336\136\43\47\341\117\157\102\22\77\74\144\245\227\324\174\141\165\204\312\204"
-  "\100\20\314\2\201\255\206\233\371\151\64\43\102\363\362\112\255\367\357\10\360\365\107\207\70\20\172\106\203\46\253\130"
-  "\216\214\3\332\317\367\276\261\137\52\17\127\26\300\171\125\370\15\370\50\352\224\211\202\132\14\334\361\75\143\6\45"
-  "\267\164\322\303\1\15\233\363\141\40\212\160\134\316\36\102\254\221\170\354\310\4\270\103\103\120\2\235\14\50\322\105"
-  "\125\40\141\15\362\135\130\341\212\342\126\256\141\230\271\34\247\12\64\367\232\270\116\23\215\317\304\273\25\256\60\340"
-  "\112\311\127\134\161\1\375\110\230\276\355\40\22\127\53\207\316\343\246\173\334\57\117\217\253\76\201\346\344\324\0\372"
-  "\306\53\271\277\374\312\363\70\54\100\243\326\125\1\125\14\135\24\157\313\51\346\140\131\255\227\37\30\54\125\54\260"
-  "\174\133\377\372\47\202\105\137\320\111\267\262\246\212\266\151\223\244\372\135\337\170\373\145\21\155\373\125\22\270\173\102"
-  "\23\335\351\270\333\256\167\303\300\102\20\175\267\343\165\137\374\272\312\315\336\15\235\264\142\354\351\210\346\54\53\370"
-  "\352\126\11\356\274\265\216\70\340\137\367\342\355\327\27\255\225\257\350\301\350\352\321\362\7\144\160\215\341\357\307\300"
-  "\74\160\160\0\16\202\142\213\323\176\3\330\305\357\153\340\266\346\332\7\342\66\354\35\15\330\21\67\113\10\336\201"
-  "\66\203\62\130\137\1\164\203\254\20\237\125\304\235\114\247\352\56\267\60\24\40\106\71\253\250\216\263\321\277\161\1"
-  "\147\301\325\213\335\143\257\277\266\353\243\215\354\347\67\167\54\136\272\131\375\2\346\332\363\140\273\257\237\226\353\44"
-  "\347\261\240\157\30\356\252\367\161\207\345\171\107\5\200\222\343\21\370\220\253\150\16\306\166\263\135\107\6\242\60\232"
-  "\326\175\254\122\237\353\203\240\24\2\234\37\103\230\137\6\211\363\62\10\74\244\211\344\246\167\374\367\377\201\132\12"
-  "\66\102\43\257\371\233\15\122\356\327\133\274\134\137\73\362\174\216\75\167\71\71\234\245\73\261\27\34\66\103\206\204"
-  "\260\215\370\257\60\364\253\272\360\100\31\175\67\114\232\145\350\335\62\367\346\177\112\201\23\235\365\332\323\342\151\273"
-  "\176\31\345\145\340\227\271\136\246\177\131\21\321\73\145\373\234\153\142\230\254\327\246\42\45\122\311\5\45\133\130\372"
-  "\246\205\231\22\126\146\112\167\151\251\167\151\162\160\154\151\231\142\151\352\13\334\342\312\105\344\61\27\121\222\105\134"
-  "\12\326\145\311\134\304\152\342\334\246\355\205\203\236\337\264\177\264\32\176\23\217\171\150\370\1\22\374\130\104\376\272"
-  "\356\266\337\314\152\375\175\177\352\301\132\346\322\307\261\45\210\244\141\31\343\142\213\330\310\73\33\117\66\242\312\212"
-  "\6\114\25\336\247\105\347\40\323\317\315\352\364\315\356\72\364\272\263\243\26\43\276\311\320\257\35\253\345\105\75\371"
-  "\353\376\324\365\140\260\73\373\341\355\354\302\176\315\62\371\153\337\323\301\301\354\366\100\105\253\211\221\223\130\323\140"
-  "\116\223\360\150\116\134\253\201\236\314\42\335\257\333\375\323\177\51\62\307\323\227\356\360\0\26\154\17\244\13\77\146"
-  "\246\261\174\327\301\167\174\366\363\211\160\277\113\217\61\374\107\253\45\377\315\53\52\1\5\236\121\71\374\371\202\117"
-  "\27\374\275\147\332\40\206\3\131\227\130\17\276\27\152\6\2\260\330\152\317\115\16\143\254\103\306\26\53\355\331\362"
-  "\62\342\114\150\265\6\115\357\103\1\24\273\73\321\364\173\175\174\265\71\256\227\247\337\314\251\377\120\376\337\265\334"
-  "\271\311\223\27\243\276\146\201\343\147\70\76\267\163\330\2\375\326\25\47\12\41\115\351\23\112\304\76\205\323\130\276"
-  "\340\246\272\2\233\76\250\147\222\243\271\31\33\315\271\275\202\166\360\40\377\25\65\321\203\51\176\146\70\65\201\256"
-  "\222\54\364\311\242\44\206\375\336\310\2\223\360\120\253\140\274\115\76\10\305\300\231\0\114\232\304\25\271\165\255\20"
-  "\271\72\122\323\276\372\106\222\11\356\225\324\40\364\123\150\211\310\34\244\70\257\303\270\366\217\311\213\46\231\104\361"
-  "\45\227\224\246\234\105\345\107\22\225\205\236\176\365\71\373\263\250\234\11\140\26\225\245\222\324\344\23\350\273\153\122"
-  "\343\62\120\316\4\376\301\75\362\265\335\54\130\62\150\115\344\36\315\345\64\211\156\204\2\107\50\65\43\310\26\301"
-  "\221\216\61\162\22\330\345\273\20\363\34\174\146\40\52\146\26\361\12\124\217\21\161\260\224\345\370\343\372\365\161\6"
-  "\323\360\216\325\101\336\61\175\332\252\76\373\365\76\275\143\343\251\74\202\164\117\107\53\50\127\72\163\117\70\241\325"
-  "\53\337\341\375\71\206\152\10\103\253\356\204\241\315\14\115\242\201\77\70\103\63\111\20\107\153\224\34\115\76\201\276"
-  "\121\70\332\314\321\112\37\107\253\274\34\255\202\230\33\344\150\240\236\66\26\107\63\311\235\260\264\231\245\111\66\335"
-  "\107\147\151\201\127\230\332\73\114\371\6\72\107\342\152\63\127\153\174\134\315\44\36\266\146\167\17\137\362\74\51\77"
-  "\213\130\372\103\356\40\10\34\243\161\326\307\343\156\377\345\374\237\232\312\316\62\73\104\7\101\224\17\104\375\51\210"
-  "\220\25\111\300\45\223\163\307\57\70\110\144\125\22\10\301\243\324\151\266\25\0\0\372\100\72\245\0\22\164\155\140"
-  "\101\223\356\164\74\355\267\133\300\340\343\32\62\72\157\273\246\147\377\242\50\242\40\247\312\122\165\62\27\71\42\75"
-  "\355\340\222\145\77\152\212\41\361\232\335\30\361\232\35\215\314\304\204\45\47\306\262\355\217\360\215\31\114\334\143\211"
-  "\22\2\176\362\62\277\42\343\122\227\310\373\17\121\305\320\13\152\102\300\46\127\156\51\116\300\137\61\222\63\45\261"
-  "\154\306\73\172\170\262\262\2\347\204\157\316\101\150\321\356\65\370\155\172\247\313\221\136\236\376\76\254\277\364\22\161"
-  "\377\163\175\104\104\43\77\215\203\157\172\374\211\237\255\170\107\370\43\150\43\332\65\171\204\100\153\356\355\102\263\274"
-  "\167\310\240\341\67\302\172\324\272\47\55\230\15\72\306\52\100\307\320\145\200\264\341\31\40\275\67\0\263\77\372\161"
-  "\245\143\267\376\152\375\302\233\16\262\163\232\177\232\204\347\213\160\215\207\245\207\144\274\326\367\173\346\213\360\132\337"
-  "\345\25\325\277\253\71\357\344\302\157\172\4\346\77\352\161\170\116\114\371\140\136\327\71\61\45\252\212\74\253\310\61"
-  "\362\176\204\337\114\75\347\147\251\114\130\11\247\347\71\224\60\211\314\117\52\306\117\140\263\24\340\0\274\343\272\375"
-  "\374\362\243\337\32\357\252\313\315\203\367\210\4\220\340\201\263\340\204\227\211\243\102\11\206\347\361\226\103\302\370\253"
-  "\174\337\354\240\357\257\241\117\346\21\232\17\67\61\302\157\11\202\157\57\144\263\77\326\307\123\350\365\205\2\201\215"
-  "\111\42\123\110\375\56\24\222\6\122\110\157\116\371\210\4\13\73\41\372\356\26\273\173\305\51\364\103\160\147\366\34"
-  "\301\60\11\267\271\100\27\234\113\110\307\223\214\312\347\30\225\362\25\372\165\104\355\175\101\270\274\14\137\103\341\5"
-  "\227\42\304\44\0\62\106\126\305\223\227\42\126\136\346\332\173\134\74\320\357\226\327\270\65\17\223\62\144\362\207\71"
-  "\113\373\235\302\176\160\162\356\207\43\261\77\262\174\30\201\52\320\61\343\341\324\321\301\323\216\227\53\37\356\47\137"
-  "\163\216\225\303\173\70\370\207\342\72\155\126\215\47\340\146\366\147\260\317\151\121\163\132\324\335\45\117\316\201\371\134"
-  "\321\11\260\122\146\175\147\116\171\222\101\347\44\116\374\311\314\64\143\63\115\70\324\145\174\123\217\137\54\244\221\375"
-  "\205\11\167\200\261\65\46\46\356\32\313\346\322\32\11\63\237\223\275\146\176\76\363\312\71\6\111\103\173\132\177\253"
-  "\174\3\235\367\33\206\64\55\156\233\7\105\12\101\235\43\61\127\313\331\134\235\113\143\114\114\265\50\303\124\13\255"
-  "\147\134\276\201\316\177\240\152\201\146\136\341\63\363\112\217\15\147\365\342\167\370\217\370\71\340\64\342\145\152\111\340"
-  "\125\364\44\360\121\63\243\61\11\172\345\113\201\366\216\77\147\76\377\350\166\335\162\261\153\345\115\372\337\135\362\54"
-  "\175\120\272\122\273\77\176\137\234\354\276\37\13\232\25\55\131\116\257\135\362\262\222\364\74\55\72\247\347\362\343\217"
-  "\47\147\100\273\271\132\167\316\17\66\147\372\164\163\234\116\313\157\316\270\277\354\127\161\376\266\323\244\66\143\344\73"
-  "\105\170\37\247\242\11\120\15\117\200\62\6\172\322\67\345\73\25\127\144\100\125\320\123\103\17\254\71\115\240\7\341"
-  "\233\102\117\334\67\175\322\52\175\207\344\252\1\307\371\257\6\34\277\206\43\247\145\302\304\11\256\212\152\45\344\225"
-  "\262\201\245\300\252\17\344\301\361\3\177\344\123\373\242\67\37\236\344\114\157\272\356\260\130\212\244\160\137\163\224\15"
-  "\25\232\31\215\142\106\30\124\247\114\37\274\132\232\255\203\111\43\147\65\22\161\156\56\137\211\252\316\344\175\132\336"
-  "\271\145\206\7\317\155\62\16\330\60\266\60\47\332\163\367\117\234\22\177\170\367\245\143\142\240\224\127\34\75\271\33"
-  "\122\305\324\160\5\334\121\31\276\111\231\142\164\346\51\325\300\205\33\66\367\317\15\147\156\70\207\37\207\160\303\332"
-  "\307\15\33\17\67\264\172\345\73\31\355\203\223\213\134\250\223\67\325\103\24\342\230\164\60\277\340\244\247\3\176\203"
-  "\367\211\237\237\143\356\341\307\370\303\361\222\122\145\33\70\313\370\31\200\134\365\341\110\41\310\312\251\47\270\176\33"
-  "\132\355\341\272\206\37\344\77\26\236\56\30\277\274\74\201\174\101\211\27\366\5\171\232\206\73\63\244\36\12\226\244"
-  "\16\66\313\345\376\312\237\374\344\74\344\142\370\123\53\130\300\345\373\363\66\200\47\313\51\260\242\75\0\63\21\205"
-  "\262\360\120\314\302\272\274\320\342\147\52\57\320\13\144\63\307\363\122\73\355\312\151\227\116\273\160\332\271\323\166\307"
-  "\117\235\266\161\332\211\335\116\33\247\135\73\355\312\151\227\116\273\160\332\271\323\316\234\166\352\264\215\323\166\326\147"
-  "\32\247\135\73\355\312\151\227\116\273\160\332\271\37\141\2\121\210\243\75\174\263\301\307\211\312\342\122\172\21\276\217"
-  "\124\343\10\215\156\4\264\322\252\104\65\102\226\340\10\106\67\2\322\125\135\353\106\100\356\325\50\327\120\340\10\225"
-  "\16\222\71\216\320\350\326\200\43\230\104\167\30\246\361\14\141\164\373\50\74\103\244\272\41\112\317\20\231\156\210\312"
-  "\63\104\256\203\205\17\234\112\372\112\74\103\224\272\125\370\140\121\353\206\360\234\210\121\22\151\345\31\102\211\27\306"
-  "\63\104\252\133\105\351\31\242\320\15\221\171\206\120\236\110\355\31\102\111\353\51\16\221\46\272\41\62\317\20\72\160"
-  "\212\344\73\212\132\361\252\252\344\1\212\44\222\334\350\156\103\260\325\122\237\42\5\336\55\60\356\360\3\174\151\41"
-  "\263\0\123\214\4\230\372\66\200\321\302\345\255\140\51\37\24\63\373\6\250\244\345\47\61\335\160\226\273\53\115\254"
-  "\226\261\132\251\325\312\254\126\156\265\12\253\125\132\255\312\152\325\126\313\132\113\226\130\55\143\265\122\253\225\131\255"
-  "\334\152\25\126\253\264\132\225\316\242\361\131\111\7\77\140\205\115\40\51\5\271\52\144\32\45\141\301\312\117\266\261"
-  "\342\50\377\171\346\264\123\247\155\234\166\102\25\103\231\323\303\142\163\303\224\72\362\175\102\104\67\35\40\25\36\57"
-  "\273\357\41\56\143\323\312\257\166\340\261\324\323\142\24\52\243\101\52\232\221\125\311\31\15\177\102\173\34\335\77\66"
-  "\371\353\335\324\370\6\315\63\106\362\236\175\237\275\227\362\344\165\237\171\160\311\216\127\310\213\371\376\352\376\357\257"
-  "\346\347\244\103\356\257\362\334\233\276\352\213\243\261\273\345\123\144\41\322\372\320\64\364\141\156\61\320\171\235\73\56"
-  "\264\332\70\355\304\156\127\215\323\256\235\166\345\264\113\247\135\70\155\67\312\252\164\332\205\323\166\177\237\71\355\324"
-  "\151\33\247\355\354\47\157\234\166\355\264\53\342\270\43\102\275\52\230\333\216\174\137\61\247\35\371\276\301\357\65\132"
-  "\121\315\34\166\344\373\322\4\152\145\15\161\326\261\375\347\201\132\135\115\34\165\24\0\71\161\323\321\35\224\304\111"
-  "\107\7\360\155\41\323\340\100\102\274\153\24\6\45\161\111\321\1\62\342\220\242\3\44\304\35\105\361\240\242\236\44"
-  "\262\202\202\370\221\350\0\226\171\120\132\2\266\262\132\265\325\362\110\330\23\222\304\250\351\271\47\17\254\161\2\226"
-  "\120\207\322\21\162\123\136\17\340\373\372\373\376\370\367\347\166\263\335\372\107\302\122\116\372\264\41\365\56\65\233\63"
-  "\114\153\255\303\127\354\237\330\220\211\233\130\23\247\274\376\115\244\231\63\66\263\211\65\163\316\146\116\43\315\234\145"
-  "\221\236\123\305\2\41\267\17\125\151\124\236\353\20\227\255\230\110\334\243\62\44\144\61\243\27\277\120\344\110\312\67"
-  "\243\161\106\223\207\143\340\333\342\215\212\167\72\104\102\71\171\311\50\307\43\330\311\61\211\43\127\221\134\34\10\337"
-  "\46\233\46\174\33\312\23\313\110\360\45\345\367\13\143\347\64\45\17\43\37\203\270\324\40\150\153\230\335\132\115\32"
-  "\70\75\146\205\217\172\53\20\215\5\200\26\252\117\301\120\370\35\203\47\43\347\255\130\212\175\374\221\43\231\4\23"
-  "\360\3\325\235\316\322\242\231\354\141\344\320\156\271\325\360\123\115\356\120\115\361\160\225\136\206\253\104\70\360\52\4"
-  "\361\70\224\177\47\113\354\121\42\300\122\170\265\330\226\105\46\366\43\264\162\151\51\40\253\73\155\25\354\353\33\300"
-  "\76\215\106\174\0\373\104\340\13\55\43\255\53\224\111\357\325\34\0\260\243\367\134\310\213\112\133\60\126\354\156\122"
-  "\310\64\300\247\260\141\223\10\147\20\370\334\377\5\135\204\107\123\10\113\111\213\102\272\26\210\212\204\174\165\372\212"
-  "\234\246\360\370\22\27\331\41\324\261\107\111\237\33\306\171\232\267\24\31\213\231\246\234\250\157\66\345\33\354\274\327"
-  "\273\115\341\265\276\134\144\273\173\300\66\41\30\213\15\326\66\33\154\156\310\6\147\66\70\263\301\372\41\234\305\305"
-  "\344\106\372\222\265\362\15\166\336\77\67\362\346\2\113\367\320\252\245\205\353\11\347\64\341\227\104\32\166\305\155\142"
-  "\0\310\224\43\52\70\354\110\370\230\102\33\347\352\17\241\316\64\330\335\57\377\300\13\311\62\261\132\306\152\245\126"
-  "\53\263\132\271\325\52\254\126\111\123\362\206\52\153\166\274\207\33\217\222\71\355\324\151\33\247\235\330\355\262\161\332"
-  "\165\140\174\104\23\30\137\120\245\201\167\353\225\11\275\133\257\3\257\306\253\54\360\152\134\16\351\50\47\376\212\65"
-  "\265\325\152\244\45\237\101\336\60\240\224\177\164\57\354\152\335\0\251\264\374\200\110\64\343\111\113\257\326\241\152\20"
-  "\362\210\60\164\313\252\375\302\100\257\157\340\233\303\73\330\306\57\200\47\24\251\203\162\226\41\260\103\101\14\222\206"
-  "\111\257\270\202\310\30\375\203\256\376\112\174\101\176\155\30\35\45\24\370\216\255\323\374\171\134\34\36\67\145\316\264"
-  "\73\131\131\100\250\372\257\13\21\347\124\26\126\271\325\52\254\226\375\113\233\65\324\126\313\56\12\223\130\55\63\21"
-  "\242\217\115\337\150\301\374\375\117\242\357\0\44\26\120\41\22\267\375\276\51\32\113\113\303\27\50\100\24\346\252\174"
-  "\204\126\122\66\156\141\10\331\267\323\110\37\142\34\55\226\72\156\235\72\307\255\267\310\161\173\340\345\213\27\207\7"
-  "\126\277\130\112\34\277\266\217\153\371\231\275\253\176\64\157\51\225\141\77\355\147\253\134\363\146\367\330\156\266\76\367"
-  "\12\232\151\254\156\252\124\172\1\54\226\272\320\236\122\332\254\200\54\326\223\221\357\310\31\71\107\4\47\64\335\23"
-  "\221\277\276\360\162\371\353\376\351\76\16\306\75\31\357\321\74\75\267\123\247\236\176\211\355\372\10\303\364\335\276\76"
-  "\33\376\307\315\356\353\227\376\277\104\52\177\244\43\204\102\357\103\7\77\304\345\376\171\167\272\307\163\225\276\141\217"
-  "\236\243\352\117\173\327\37\367\143\367\1\17\374\207\53\361\176\160\221\247\257\330\77\5\31\305\101\341\102\2\1\241"
-  "\337\370\204\104\1\337\77\0\200\320\176\0\110\46\315\161\71\244\166\0\252\140\76\311\301\167\7\214\215\74\64\262"
-  "\177\76\375\353\136\4\152\354\121\221\376\205\45\357\53\43\2\67\174\70\3\126\337\17\102\357\244\360\125\61\264\320"
-  "\161\124\22\320\160\361\326\163\110\300\257\37\73\345\65\1\207\364\356\171\273\35\37\316\154\132\141\177\121\216\267\75"
-  "\260\167\122\262\377\356\341\24\172\236\235\110\50\176\132\152\363\134\6\247\350\261\11\271\232\305\40\74\374\72\174\302"
-  "\304\172\50\257\343\376\116\277\364\257\357\352\211\0\54\346\35\116\363\130\337\233\207\71\240\137\213\255\2\316\11\371"
-  "\174\273\175\356\276\365\334\133\330\220\334\266\53\71\323\161\375\303\346\20\175\147\20\217\370\157\345\61\374\102\336\224"
-  "\22\1\275\135\174\355\250\331\322\235\26\307\323\143\277\12\207\273\60\141\43\254\105\206\200\137\237\227\0\276\133\214"
-  "\203\241\101\10\174\124\103\106\175\113\24\175\112\136\151\24\67\70\74\316\243\215\301\172\126\75\317\203\117\307\51\104"
-  "\72\364\51\34\237\134\335\220\356\63\372\277\41\344\345\377\200\243\66\102\244\246\120\70\167\342\112\103\367\206\221\150"
-  "\140\124\237\225\337\163\371\47\374\30\137\74\344\217\372\335\35\246\50\336\147\12\340\117\55\171\333\211\1\20\331\44"
-  "\236\51\343\15\355\375\23\276\346\331\37\151\170\67\307\105\366\356\264\137\74\212\111\370\36\142\173\267\376\272\70\155"
-  "\176\254\235\357\26\235\323\163\350\341\27\46\360\247\373\2\343\150\132\203\237\224\106\326\51\302\363\2\345\324\161\27"
-  "\322\300\31\302\336\241\342\233\115\175\273\325\155\133\123\164\220\227\361\107\221\153\247\330\162\365\254\357\33\150\7\371"
-  "\251\37\200\354\241\366\24\7\342\260\321\253\0\361\37\1\307\274\365\232\32\155\302\236\123\57\173\116\55\25\12\264"
-  "\126\71\71\21\305\52\2\124\35\33\242\241\376\350\146\74\111\303\360\44\367\340\211\325\213\317\326\160\234\50\275\110"
-  "\101\301\41\300\246\63\44\151\316\244\215\4\360\160\4\341\114\51\74\11\205\243\275\314\22\312\324\103\354\24\334\40"
-  "\106\175\342\201\343\26\342\257\134\110\4\303\330\365\313\16\320\102\262\64\314\265\61\163\61\157\274\270\242\236\312\4"
-  "\316\173\76\142\372\272\36\244\125\214\175\302\126\44\364\14\162\317\263\70\265\352\262\17\376\241\7\336\44\1\123\276"
-  "\105\151\212\14\217\100\223\163\222\160\256\20\316\5\207\263\322\54\6\115\160\172\160\250\21\16\331\350\160\250\247\17"
-  "\207\306\177\63\242\247\73\374\7\372\67\271\347\225\370\114\31\344\270\122\17\147\46\76\127\377\265\44\367\206\156\367"
-  "\273\257\161\174\241\77\26\333\347\365\273\73\77\145\131\257\35\347\267\60\355\256\76\24\337\356\150\245\303\161\241\142"
-  "\362\210\204\354\13\366\102\174\77\376\30\261\126\154\22\222\27\300\147\77\357\200\307\142\42\262\275\236\32\167\266\12"
-  "\6\102\24\140\205\174\103\46\225\257\374\145\212\214\177\101\221\314\170\274\374\25\217\25\272\263\370\312\120\217\74\256"
-  "\277\313\115\57\104\52\10\130\6\264\344\205\46\156\357\61\224\151\144\221\260\33\70\10\50\67\302\175\35\171\255\235"
-  "\117\126\356\127\247\313\2\53\303\7\130\144\202\72\372\105\42\204\200\342\205\36\270\364\122\142\341\152\363\343\361\31"
-  "\120\100\276\304\253\167\34\74\276\341\203\45\114\370\25\175\44\131\255\44\104\275\326\215\107\205\336\302\60\105\0\57"
-  "\73\303\223\317\100\163\210\257\76\224\371\165\352\103\231\317\352\303\304\324\207\62\177\27\365\1\337\3\353\156\247\124"
-  "\0\304\360\161\62\351\335\255\157\243\207\224\271\350\41\220\34\377\116\232\311\254\231\314\232\111\231\207\153\46\172\212"
-  "\213\257\314\314\312\14\262\231\217\244\336\264\375\320\61\225\232\366\166\312\112\333\16\263\15\75\266\12\45\275\77\277"
-  "\355\267\116\327\351\373\301\376\262\75\56\226\366\117\44\105\214\253\102\123\17\106\273\67\225\254\77\272\337\77\372\225"
-  "\174\116\376\365\177\16\177\45\177\374\357\177\377\43\371\343\337\377\217\107\326\267\55\345\343\320\333\242\56\23\203\205"
-  "\101\26\352\252\53\15\102\176\114\377\151\110\251\45\6\261\127\205\67\371\145\76\267\377\372\77\207\277\114\222\146\57"
-  "\107\364\311\174\256\232\252\154\62\223\255\377\312\222\272\77\61\371\174\173\172\27\200\173\342\203\76\26\300\57\300\373"
-  "\22\270\277\106\5\167\300\315\24\150\62\376\163\313\240\112\261\347\107\20\275\205\163\13\235\51\327\314\325\325\311\243"
-  "\315\152\271\52\13\141\243\151\163\106\232\365\137\111\322\40\256\250\202\273\24\274\302\273\210\117\236\125\154\245\144\123"
-  "\154\324\305\245\307\320\370\326\275\132\26\176\334\104\210\202\332\113\155\16\353\224\136\236\221\20\237\3\162\152\304\0"
-  "\335\334\42\156\277\22\253\151\74\357\6\256\273\204\271\345\170\25\21\334\112\133\13\311\11\121\14\314\152\351\370\32"
-  "\30\172\203\146\323\364\303\267\11\204\170\70\244\174\242\10\3\47\164\163\72\366\306\326\143\133\346\350\154\32\54\221"
-  "\53\130\212\374\226\120\237\154\312\225\167\207\375\117\223\20\20\101\44\304\367\347\255\165\122\62\217\57\33\273\226\77"
-  "\367\37\302\251\366\66\226\17\52\350\17\351\155\57\140\236\362\265\364\311\17\1\42\317\10\21\131\212\50\376\256\310"
-  "\263\55\207\117\346\154\71\174\56\270\152\44\353\321\75\357\310\267\360\276\347\370\125\354\34\52\110\144\53\210\265\24"
-  "\46\100\25\374\55\315\220\143\104\61\45\23\220\3\115\102\302\332\325\50\3\121\72\301\150\47\147\305\3\202\20\277"
-  "\30\40\342\60\63\41\230\360\63\37\361\111\200\160\66\302\243\233\21\144\343\144\360\105\246\124\242\17\167\122\337\110"
-  "\225\105\25\22\42\52\323\21\175\0\227\210\252\321\4\63\226\30\107\110\60\116\107\46\12\57\162\102\246\305\300\14"
-  "\24\201\130\35\102\120\102\225\156\45\217\22\131\10\125\106\122\307\1\123\302\161\16\10\370\116\64\373\54\54\341\256"
-  "\364\140\200\325\53\107\256\73\344\111\2\53\107\140\225\241\317\370\126\26\105\324\367\3\254\202\61\106\21\130\204\63"
-  "\166\341\234\121\61\257\260\306\16\66\145\177\6\274\261\172\20\312\250\75\224\141\365\312\317\247\123\300\50\44\353\76"
-  "\152\51\202\271\24\101\143\207\345\44\17\141\211\350\361\103\20\246\53\363\312\60\231\147\22\37\151\133\335\162\134\323"
-  "\317\253\222\363\230\363\252\6\70\314\171\125\172\70\314\171\125\34\162\361\357\33\325\261\106\353\217\25\153\104\2\211"
-  "\372\62\323\51\364\364\13\261\373\376\363\274\52\151\246\166\373\373\146\47\313\222\110\42\350\203\122\226\267\216\102\212"
-  "\32\101\144\312\150\21\104\372\330\36\255\326\27\71\24\103\370\211\162\135\21\142\162\356\372\312\275\35\361\312\175\214"
-  "\213\164\242\164\211\20\213\240\247\175\324\213\170\24\215\160\267\114\66\351\57\26\135\137\170\53\355\362\75\232\254\277"
-  "\110\131\304\166\367\355\70\64\55\173\74\311\53\362\241\5\102\11\104\106\250\147\227\14\302\101\242\161\60\212\37\132"
-  "\11\20\371\363\157\275\73\311\212\246\51\323\52\253\222\274\51\140\77\326\217\313\244\62\165\232\233\272\116\222\304\124"
-  "\171\122\313\117\366\107\371\267\377\374\174\354\270\254\27\151\135\77\225\311\262\176\312\16\237\262\341\242\306\124\145\322"
-  "\230\264\220\0\43\331\244\100\10\111\327\67\103\226\347\46\53\222\246\255\232\366\351\360\51\35\146\310\22\223\244\115"
-  "\277\361\141\6\271\64\227\306\142\345\307\147\166\163\213\113\250\75\341\260\106\156\243\344\246\15\77\115\353\152\121\225"
-  "\131\331\346\131\151\176\257\276\357\155\212\264\51\213\202\255\36\43\40\0\217\6\205\111\1\320\105\223\345\155\322\124"
-  "\315\42\253\114\57\250\136\226\224\175\316\122\323\244\165\322\340\212\364\267\163\174\375\204\140\364\233\112\313\247\47\363"
-  "\364\364\124\24\205\51\137\67\225\366\130\222\26\165\201\233\12\305\311\62\135\347\151\273\156\27\131\263\156\377\13\0"
-  "\57\102\76\257\114\155\160\272\113\367\261\230\24\361\237\326\327\0\261\377\344\14\106\156\12\160\237\227\171\232\234\33"
-  "\346\304\251\131\361\226\261\224\353\66\2\327\230\322\107\10\31\265\72\74\137\364\335\372\177\307\116\51\140\30\301\16"
-  "\374\63\234\127\171\365\310\236\243\16\370\66\247\4\322\273\340\201\1\304\370\213\220\24\105\54\242\362\162\171\100\3"
-  "\350\205\135\51\135\307\362\21\247\0\270\222\223\76\5\5\44\212\23\44\220\275\46\342\273\270\26\116\311\365\111\226"
-  "\164\260\117\326\150\137\207\321\230\327\33\343\314\345\240\304\277\100\24\163\321\65\211\307\216\332\270\213\254\134\247\353"
-  "\47\263\314\263\164\325\213\227\174\220\57\57\72\233\155\330\322\354\104\62\321\272\316\353\104\24\33\63\4\250\17\115"
-  "\64\124\365\167\7\150\131\342\371\341\131\251\107\0\52\123\105\253\222\235\301\357\203\14\265\375\21\306\364\176\225\20"
-  "\54\204\137\2\143\41\261\104\74\74\2\21\53\300\62\15\103\35\375\241\152\174\312\2\126\353\130\374\64\217\275\160"
-  "\70\0\104\204\33\37\5\267\207\13\343\130\213\137\40\0\70\152\151\157\273\241\154\122\330\22\201\324\333\61\245\273"
-  "\110\76\342\227\121\276\164\24\301\217\27\373\156\376\354\126\277\302\201\305\375\243\74\12\226\123\203\277\336\107\232\344"
-  "\15\342\33\172\41\371\343\44\210\370\350\56\153\220\271\231\340\272\13\367\370\44\113\34\104\47\272\236\266\66\207\174"
-  "\103\264\10\104\160\374\265\140\270\176\245\210\125\154\231\202\253\114\30\242\16\56\344\1\165\34\21\133\302\136\100\342"
-  "\171\134\363\13\110\341\344\246\310\255\302\237\360\235\207\137\122\57\356\374\222\372\373\142\167\332\164\135\277\201\62\267"
-  "\172\317\25\164\72\373\307\120\145\3\356\267\177\364\363\322\252\141\107\136\255\143\370\354\117\163\136\55\364\146\37\276"
-  "\364\206\54\54\201\36\3\75\51\364\144\320\223\107\275\222\317\353\273\277\222\237\257\344\347\53\171\105\355\230\371\132"
-  "\336\237\327\237\251\74\115\363\275\74\271\105\214\170\235\56\223\212\32\300\217\123\164\203\253\152\62\261\37\15\52\3"
-  "\271\335\143\71\246\370\43\313\213\236\42\74\161\277\366\347\160\143\50\145\75\57\72\330\301\133\111\167\305\343\60\56"
-  "\32\151\334\102\43\220\302\261\370\112\120\234\341\171\206\307\237\207\126\6\345\251\75\41\45\100\311\53\370\223\116\11"
-  "\125\126\307\124\124\275\324\244\65\41\166\223\223\234\176\345\112\75\222\117\31\265\170\272\146\1\75\31\54\105\370\201"
-  "\360\114\202\127\167\16\127\376\234\127\2\223\230\64\334\131\313\0\257\177\372\75\176\25\43\223\351\223\235\77\40\16"
-  "\24\223\50\162\244\177\131\236\234\33\307\0\374\10\307\206\35\60\4\200\135\36\307\257\16\32\240\313\124\130\210\100"
-  "\376\130\77\60\145\25\363\44\120\133\345\265\317\121\313\371\23\171\214\0\216\337\257\353\52\242\10\320\363\263\207\105"
-  "\242\137\75\127\230\137\255\65\262\310\37\41\60\162\176\107\375\23\251\362\211\140\240\176\313\147\337\115\75\162\341\304"
-  "\200\311\371\13\217\170\4\341\351\334\310\253\265\163\1\47\275\360\131\251\260\36\31\145\204\143\67\54\257\10\104\153"
-  "\1\167\0\207\223\123\211\66\346\207\220\306\345\3\101\307\10\257\52\310\370\23\172\105\101\26\25\341\325\4\371\145"
-  "\250\300\43\217\52\310\170\60\21\370\262\270\30\300\357\244\274\6\31\376\366\6\254\135\16\307\152\124\322\210\25\126"
-  "\307\267\164\277\32\175\305\353\365\304\61\175\271\113\324\350\335\255\310\46\120\106\146\377\120\165\50\273\241\72\224\51"
-  "\361\124\76\373\170\122\270\346\256\114\331\40\214\245\244\63\275\314\224\213\260\231\17\252\12\152\230\64\321\127\26\271"
-  "\167\47\240\111\160\145\1\17\251\337\75\270\2\252\202\117\276\54\322\364\241\237\116\241\152\322\364\301\224\115\241\250"
-  "\322\364\301\224\337\107\315\45\6\330\351\127\144\372\321\355\16\307\315\356\324\52\43\136\375\1\256\303\13\165\177\272"
-  "\121\257\44\164\325\16\160\175\355\202\2\110\203\211\272\351\66\373\235\335\355\64\241\100\322\117\34\305\356\171\175\222"
-  "\137\172\344\71\136\247\353\317\106\176\47\235\46\361\366\32\273\167\353\54\303\371\353\237\46\167\366\321\75\156\267\163"
-  "\324\53\364\344\320\123\100\117\11\75\25\364\324\320\3\153\116\23\350\101\370\246\320\223\101\117\16\75\5\364\224\320"
-  "\123\101\117\15\75\260\346\54\231\166\241\56\20\6\327\106\3\276\362\26\231\336\33\17\230\123\377\276\60\172\224\10"
-  "\150\343\311\53\34\257\154\123\270\361\356\171\273\205\301\373\77\250\137\6\102\241\342\215\367\313\355\77\327\217\35\110"
-  "\110\131\165\274\301\105\142\127\240\323\306\232\372\176\223\316\24\25\226\244\217\200\222\354\225\321\216\244\347\240\116\252"
-  "\251\327\42\175\221\226\253\170\345\114\264\52\177\214\13\276\33\40\115\270\257\67\251\323\66\116\73\261\333\215\335\254"
-  "\355\146\25\207\25\40\136\373\165\156\54\115\343\72\201\45\62\56\301\21\12\335\10\306\153\36\51\106\150\160\0\335"
-  "\22\270\213\221\14\40\125\327\5\23\164\5\326\15\257\250\20\136\130\45\26\315\361\107\375\274\317\65\10\340\25\331"
-  "\231\141\320\51\75\320\51\247\12\235\346\112\350\344\143\101\7\220\125\372\246\6\35\341\74\32\317\110\30\170\0\133"
-  "\245\157\202\340\61\327\162\236\162\54\370\0\276\112\337\4\341\223\222\327\304\341\143\305\353\62\73\367\275\42\371\265"
-  "\325\310\311\32\304\45\24\105\35\100\217\122\357\140\130\255\227\217\166\146\200\336\135\55\343\112\376\364\306\277\63\324"
-  "\51\243\32\50\171\172\345\23\165\336\56\240\34\13\127\61\247\201\54\37\37\167\121\44\361\214\42\65\171\66\320\117"
-  "\260\355\125\147\370\323\377\205\66\21\20\171\275\164\106\67\45\256\267\51\304\35\171\33\144\366\107\63\216\136\305\213"
-  "\36\217\141\173\203\161\344\33\354\214\175\244\253\343\376\160\227\14\125\260\157\146\252\202\236\74\212\255\323\46\246\360"
-  "\360\14\55\127\200\173\125\40\215\364\135\270\35\372\54\263\7\273\335\70\355\332\151\127\116\273\164\332\205\323\316\157"
-  "\345\373\350\167\202\114\321\307\251\262\13\316\213\302\63\106\251\34\243\362\214\121\53\307\310\161\14\243\135\107\211\143"
-  "\244\251\162\214\372\137\75\41\215\245\160\347\327\32\373\305\150\26\11\316\51\235\61\51\51\2\372\42\206\274\135\366"
-  "\27\46\35\15\302\150\375\110\147\174\136\45\270\146\331\125\262\52\372\354\136\75\32\44\112\37\44\312\273\300\265\374"
-  "\355\270\126\216\247\145\242\173\112\72\337\17\325\312\167\140\153\265\17\22\361\135\121\176\0\340\261\304\347\72\340\152"
-  "\222\316\333\3\240\276\75\6\244\140\20\113\347\215\1\40\162\36\376\204\332\142\232\330\355\302\151\347\215\323\256\235"
-  "\266\133\362\243\164\332\205\323\316\235\166\346\264\123\247\355\216\357\254\57\155\234\166\355\264\53\247\135\72\355\302\151"
-  "\347\116\333\205\127\352\264\315\255\264\343\176\46\274\334\207\271\345\147\250\14\312\141\332\11\153\232\41\122\317\20\215"
-  "\156\210\14\325\374\52\121\16\141\160\10\243\34\242\360\7\166\153\140\201\103\64\225\162\210\32\207\320\256\242\302\41"
-  "\264\47\122\172\14\236\104\271\14\343\31\103\173\46\251\147\214\124\71\106\342\31\43\123\216\221\173\306\320\22\212\147"
-  "\57\306\50\307\50\75\143\50\341\221\327\236\61\12\345\30\306\63\206\26\323\63\34\43\325\342\130\56\162\115\44\325"
-  "\120\366\307\130\255\324\152\145\126\53\267\132\205\325\52\255\126\324\250\17\204\203\154\131\237\141\27\173\215\65\130\267"
-  "\230\370\204\116\103\21\140\103\0\157\374\105\43\301\361\352\2\365\24\326\332\324\327\54\65\145\113\5\266\165\341\3"
-  "\132\11\337\124\220\303\200\372\61\365\123\306\306\314\0\277\113\166\265\1\24\163\67\50\147\340\22\2\171\101\374\205"
-  "\340\155\210\52\13\222\143\127\246\307\56\145\161\124\365\232\122\374\170\112\10\61\121\341\40\270\202\322\101\357\4\25"
-  "\350\307\277\266\142\205\133\241\130\357\255\53\65\53\112\240\372\357\315\310\173\53\100\321\144\46\30\106\176\13\105\106"
-  "\302\267\264\75\301\264\42\300\340\303\147\370\51\336\363\251\362\272\360\75\13\362\250\205\100\123\345\172\272\21\262\23"
-  "\232\107\144\377\263\211\217\356\62\127\350\225\60\216\345\107\156\66\75\101\144\266\130\206\264\221\320\163\64\314\54\121"
-  "\200\42\330\337\13\113\241\64\256\166\167\46\255\77\314\366\114\11\373\173\257\105\241\126\17\274\302\44\67\144\26\46"
-  "\31\221\133\230\104\317\56\56\124\327\142\77\237\76\303\300\23\27\360\204\153\162\21\20\344\366\332\41\34\347\35\253"
-  "\51\167\160\222\212\53\270\144\226\335\267\0\163\132\24\270\326\73\23\344\162\311\126\144\174\267\23\25\353\346\226\142"
-  "\335\114\231\32\231\247\223\7\11\170\323\205\157\227\57\154\337\230\324\126\253\271\315\135\107\131\334\336\133\73\175\11"
-  "\305\237\20\216\202\355\13\362\212\55\301\146\314\46\227\316\133\143\163\146\267\314\155\260\271\112\146\154\236\14\66\267"
-  "\141\330\214\221\311\322\171\163\154\116\255\126\146\265\162\253\125\334\350\216\72\311\46\177\15\121\231\21\156\41\322\44"
-  "\257\247\166\51\130\66\167\10\373\370\54\161\146\211\353\60\226\210\274\105\72\157\316\22\313\7\236\133\276\125\344\341"
-  "\362\367\63\45\350\324\176\31\46\253\21\56\133\354\41\160\340\153\237\337\40\77\12\260\55\163\313\356\226\3\222\37"
-  "\115\347\156\342\276\216\144\204\147\373\263\306\242\246\74\231\251\351\146\324\224\47\76\152\262\272\345\200\24\216\15\314"
-  "\271\221\316\133\113\212\334\74\114\46\323\231\110\166\53\34\212\375\126\136\171\160\244\174\167\72\356\172\154\201\107\74"
-  "\207\202\245\143\6\116\341\230\270\124\375\317\205\36\141\237\260\27\101\313\10\162\76\117\155\316\224\75\360\355\110\47"
-  "\307\145\166\62\63\213\72\12\324\155\26\145\165\313\111\341\253\230\271\175\204\36\25\366\240\267\156\22\105\114\146\370"
-  "\333\355\172\303\216\120\241\374\105\373\256\236\174\47\320\16\10\4\75\140\217\2\23\125\207\167\207\204\341\175\5\324"
-  "\352\26\374\37\103\121\313\113\233\226\252\231\35\276\303\251\127\276\123\267\272\345\244\24\32\33\34\246\164\336\136\143"
-  "\253\37\170\116\206\140\3\367\43\145\157\50\264\305\236\11\21\350\15\125\337\3\236\25\271\303\10\12\214\162\341\317"
-  "\235\225\323\17\217\271\227\343\41\7\61\211\373\164\312\262\320\355\46\235\67\147\131\15\311\306\376\307\124\100\307\300"
-  "\1\351\274\365\251\24\311\130\267\141\163\151\373\14\141\51\235\267\75\130\151\15\177\362\152\104\326\225\51\46\54\47"
-  "\341\16\132\74\20\376\224\76\216\206\122\6\307\345\106\232\154\76\42\232\20\100\204\277\154\324\236\237\65\352\41\326"
-  "\77\164\272\77\236\376\370\267\327\216\177\33\46\227\47\213\16\276\47\214\354\276\305\341\201\75\141\44\257\34\275\266"
-  "\217\153\371\231\275\257\176\64\217\244\275\360\320\110\273\331\372\156\132\271\233\357\165\63\36\115\100\16\15\137\202\202"
-  "\305\365\133\41\325\120\121\341\220\357\310\71\271\307\204\247\64\341\123\221\77\277\220\267\24\2\335\77\241\25\211\314"
-  "\352\303\237\135\347\36\136\347\77\275\247\347\166\362\104\326\257\261\135\37\141\234\276\373\116\316\152\7\207\265\273\362"
-  "\264\226\373\347\335\351\303\37\240\364\15\33\372\210\207\370\303\75\303\37\234\135\362\147\370\76\30\177\43\40\152\1"
-  "\106\172\311\317\201\66\35\121\115\300\321\1\70\364\114\232\303\143\142\134\225\200\144\207\60\11\347\205\34\116\123\144"
-  "\136\4\126\307\365\156\361\175\275\70\11\250\176\367\270\220\332\157\127\355\352\165\323\322\165\130\234\276\331\235\273\365"
-  "\317\166\5\135\303\357\210\360\130\37\217\373\243\137\134\14\323\143\357\260\202\113\375\2\233\36\44\137\277\364\377\205"
-  "\166\316\353\252\175\275\366\360\322\117\206\227\77\374\134\164\233\307\156\267\70\164\337\366\247\307\303\161\375\143\263\376"
-  "\151\276\274\174\377\70\300\32\354\347\63\34\170\42\320\333\174\305\232\301\305\62\33\76\334\355\277\234\377\23\151\333"
-  "\302\64\362\304\2\307\107\27\33\5\27\1\361\364\130\326\177\334\133\261\355\312\126\124\372\257\245\227\74\310\372\101"
-  "\136\337\354\320\77\143\121\7\173\235\240\135\356\116\333\57\155\157\364\367\210\272\35\276\260\60\125\140\211\10\101\160"
-  "\21\350\210\275\277\234\203\372\241\130\146\77\117\300\62\255\135\352\375\203\260\145\345\130\271\214\45\233\266\271\167\200"
-  "\153\205\75\213\122\225\112\116\240\137\13\141\10\337\367\77\54\206\320\267\201\41\134\105\370\36\372\76\376\23\310\175"
-  "\44\132\247\24\44\351\5\357\213\104\176\7\147\30\5\133\102\114\300\366\274\333\364\150\372\345\171\267\335\354\376\143"
-  "\161\2\230\35\365\321\100\366\131\23\110\145\46\54\273\103\61\125\125\302\124\1\61\75\241\147\2\107\160\374\336\17"
-  "\266\70\241\271\256\332\144\221\217\201\316\74\305\367\70\62\227\74\234\265\72\341\222\103\333\345\222\235\207\53\212\225"
-  "\54\112\270\374\354\72\337\100\11\302\331\145\112\364\20\120\215\76\357\0\206\352\173\1\164\335\10\41\167\35\277\310"
-  "\13\302\364\16\173\210\365\0\24\153\121\10\352\2\355\317\343\346\264\226\107\261\0\265\353\353\206\71\74\237\226\60"
-  "\12\270\201\364\243\40\41\310\171\102\337\215\141\143\222\267\355\12\310\262\377\277\377\17";
-
-/* lib/stdlib.wo (DEFLATEd, org. size 70385) */
-static unsigned char file_l_42[6320] =
-  "\264\226\147\217\253\70\24\206\77\157\373\17\26\303\207\144\53\46\5\222\355\275\367\276\213\204\14\330\271\350\202\215\154"
-  "\63\145\177\375\72\230\70\140\23\45\167\212\64\223\230\207\363\276\347\270\147\126\263\242\255\60\360\205\54\252\62\173"
-  "\355\145\0\146\145\335\60\56\201\227\163\351\1\117\64\276\7\146\273\212\145\250\2\276\142\133\105\300\254\156\45\50"
-  "\27\341\174\76\237\320\324\270\146\374\116\311\164\103\313\372\166\140\24\347\263\250\4\126\264\220\274\244\73\235\42\157"
-  "\366\51\110\113\163\340\153\276\325\24\314\32\304\121\335\311\117\267\71\26\155\65\331\11\223\104\65\150\136\67\166\226"
-  "\36\77\132\32\125\265\300\322\316\242\351\143\366\245\302\324\116\242\351\245\146\230\163\312\74\363\155\346\253\173\336\166"
-  "\237\147\346\114\334\40\147\70\173\174\276\247\356\152\223\167\15\126\306\245\50\312\135\51\215\161\307\267\75\75\337\71"
-  "\333\114\64\50\307\266\231\246\57\156\166\73\135\332\355\275\152\223\254\142\67\230\133\156\75\275\324\254\106\362\231\362"
-  "\252\12\174\333\30\247\75\334\166\350\140\103\326\313\351\125\246\136\330\226\55\55\205\54\224\251\310\370\163\343\251\351"
-  "\166\317\56\255\355\6\211\62\25\24\65\342\31\223\151\303\361\165\211\157\240\62\46\105\172\303\113\211\215\371\164\344"
-  "\366\20\167\331\276\171\140\121\230\136\227\234\321\164\207\345\271\272\6\241\117\122\202\50\377\303\342\322\102\214\340\321"
-  "\313\151\70\313\123\174\133\236\55\303\4\16\123\116\136\15\214\112\314\353\164\357\46\254\73\142\370\112\33\234\326\347"
-  "\254\245\322\325\233\127\47\365\373\220\222\42\263\364\264\324\120\267\176\223\102\337\251\333\264\37\162\60\303\267\332\370"
-  "\100\274\271\271\110\125\113\175\276\235\63\52\244\271\43\13\44\221\261\51\4\364\201\176\217\252\162\107\337\207\300\233"
-  "\375\360\373\167\337\315\223\40\360\46\4\315\376\120\20\51\43\51\14\300\65\342\275\54\6\236\22\130\177\376\107\56"
-  "\373\333\141\161\234\344\213\61\215\227\111\21\45\233\350\343\356\41\110\160\20\335\251\240\217\77\115\140\104\223\140\225"
-  "\144\372\57\116\66\213\57\22\262\112\310\346\303\4\157\222\140\361\143\374\175\230\300\42\120\344\253\233\44\16\377\171"
-  "\57\311\210\110\42\222\24\305\217\11\134\265\336\364\40\270\243\360\365\17\137\174\375\303\327\277\375\355\214\203\321\204"
-  "\216\346\207\217\177\230\275\176\152\344\70\242\305\62\116\5\306\305\140\340\102\260\337\63\357\257\47\4\270\156\344\235"
-  "\231\347\243\144\251\45\313\311\252\26\156\125\45\225\230\123\124\1\314\71\343\133\320\122\224\125\30\110\6\70\226\274"
-  "\304\327\30\364\111\152\114\45\320\27\250\110\350\211\176\144\155\376\34\113\341\26\4\203\170\42\274\225\44\116\145\227"
-  "\161\250\360\366\363\32\234\373\213\310\64\307\203\166\76\174\265\76\266\211\322\106\272\75\312\105\116\370\4\371\110\113"
-  "\206\251\343\3\217\247\175\140\150\153\341\120\16\73\156\374\307\76\60\36\153\165\352\205\46\240\243\130\77\330\56\20"
-  "\273\312\361\220\55\115\373\105\377\314\344\353\343\311\154\177\104\313\174\217\301\341\210\362\305\350\220\367\251\176\354\143"
-  "\52\226\357\17\55\122\164\324\74\147\215\77\6\304\6\45\264\101\350\17\235\365\161\370\366\16\113\363\313\136\277\350"
-  "\302\337\26\130\166\131\316\4\37\117\107\270\76\22\321\146\43\235\260\165\27\145\47\156\222\320\15\52\206\150\147\164"
-  "\107\46\61\356\106\303\211\23\203\202\45\343\30\60\102\224\347\373\301\141\217\271\316\156\105\313\43\100\105\341\346\15"
-  "\335\274\364\305\363\26\227\224\2\57\11\212\47\352\125\361\325\331\237\156\72\264\340\254\161\322\144\215\177\146\272\71"
-  "\226\55\357\372\75\261\45\322\156\117\220\343\105\334\3\157\76\336\47\244\226\343\235\202\32\177\142\257\50\74\136\370"
-  "\142\374\170\215\252\61\300\343\107\113\135\73\352\253\310\322\137\155\54\207\53\30\130\46\127\20\272\76\60\264\215\340"
-  "\322\161\132\71\116\353\11\247\310\161\162\152\12\235\232\102\253\246\107\74\143\14\130\330\140\151\203\225\15\326\66\210"
-  "\154\20\333\140\363\304\107\133\360\44\147\233\265\215\220\33\247\230\106\231\142\317\201\17\115\4\153\200\37\272\36\244"
-  "\226\307\122\53\206\212\70\25\366\371\2\373\10\162\117\265\65\72\213\350\110\50\376\277\275\63\121\123\34\327\365\370"
-  "\243\334\245\346\356\33\11\153\235\363\60\174\20\122\335\231\16\41\223\204\132\346\351\157\102\65\237\332\371\341\22\52"
-  "\7\252\172\232\263\116\134\136\44\131\376\113\226\154\163\354\333\331\247\170\220\52\315\353\324\107\3\252\373\61\66\230"
-  "\352\364\217\357\364\24\33\105\64\1\244\326\276\26\202\301\160\22\24\31\331\70\216\242\51\130\6\247\242\162\50\202"
-  "\265\7\243\320\133\41\20\66\16\263\130\367\207\30\235\122\53\32\161\226\210\100\173\1\265\163\45\135\245\17\377\213"
-  "\115\136\237\274\231\322\133\261\31\106\137\6\127\203\321\350\23\251\1\132\264\326\354\54\267\153\364\66\46\244\350\30"
-  "\354\310\120\344\136\376\46\103\376\117\34\115\346\223\305\170\66\131\370\4\350\251\16\132\266\236\111\305\310\130\11\171"
-  "\263\254\145\104\126\103\137\60\134\66\102\120\137\224\133\376\101\354\323\304\261\117\343\337\234\77\116\151\256\250\120\16"
-  "\275\230\326\362\54\307\176\113\235\227\222\52\335\56\367\120\247\5\325\111\34\364\5\27\325\221\173\162\245\215\277\311"
-  "\36\227\173\260\41\115\70\347\137\232\143\203\165\265\314\36\104\256\355\370\316\207\310\77\100\237\206\235\235\230\53\167"
-  "\172\276\164\241\235\203\322\66\46\155\13\3\155\240\10\45\47\251\6\221\264\40\237\324\160\104\363\117\156\70\356\346"
-  "\357\66\35\6\313\162\167\117\333\162\27\1\174\205\40\110\11\344\12\276\336\105\221\203\231\163\7\120\147\56\240\56"
-  "\260\332\205\22\303\312\150\233\160\161\20\111\204\270\53\41\353\302\104\202\37\134\331\112\301\327\231\100\252\363\41\323"
-  "\201\125\65\250\354\247\3\3\23\265\23\152\54\25\177\146\200\212\76\73\100\105\361\131\61\272\120\204\212\70\172\27"
-  "\111\302\330\102\22\4\5\212\35\220\232\271\121\211\221\203\122\367\56\112\105\360\320\204\32\333\122\231\162\251\314\116"
-  "\142\304\14\22\275\34\112\105\221\201\4\5\245\146\26\224\272\27\140\352\175\104\43\300\324\45\144\77\37\30\246\250"
-  "\241\320\145\251\371\123\343\124\114\234\322\43\146\3\23\21\217\224\0\330\47\102\115\335\257\23\216\102\140\363\224\147"
-  "\27\323\166\12\115\176\330\74\345\333\305\221\13\214\143\7\66\243\270\207\233\160\301\204\34\323\332\215\107\134\273\364"
-  "\255\204\76\316\247\0\47\172\332\240\211\273\273\334\237\124\157\14\276\121\20\331\253\376\36\12\40\21\371\363\375\374"
-  "\124\317\205\15\364\47\6\371\51\250\37\233\174\323\50\26\244\307\327\230\270\177\1\335\271\37\32\367\271\304\144\61"
-  "\262\346\165\161\137\110\66\375\303\272\352\322\63\374\253\123\52\371\234\341\222\251\253\146\367\103\46\265\375\102\32\265"
-  "\346\271\301\177\144\20\235\72\111\131\327\115\325\354\66\347\21\225\71\104\145\12\121\310\352\36\217\105\310\147\372\105"
-  "\152\71\204\142\52\13\275\112\333\233\55\317\126\353\26\127\4\346\236\126\65\347\62\14\132\133\113\226\336\256\207\302"
-  "\76\2\267\10\362\332\305\1\314\30\163\51\267\344\276\236\164\352\306\354\310\350\6\143\210\223\62\341\164\42\102\173"
-  "\151\111\267\103\101\160\63\107\215\346\103\250\221\234\240\26\65\242\371\363\237\70\331\356\363\213\110\303\76\377\13\314"
-  "\277\174\140\102\105\233\347\47\265\171\316\220\215\60\44\32\241\73\42\205\130\120\75\277\122\200\152\241\113\105\304\334"
-  "\101\304\374\206\210\67\104\274\41\342\15\21\177\145\104\354\101\242\212\211\263\11\61\261\55\74\37\23\333\312\377\233"
-  "\76\67\55\205\313\366\157\313\372\206\224\67\244\274\41\45\327\5\327\271\324\373\324\370\11\116\244\364\172\250\72\233"
-  "\350\250\332\325\42\304\100\332\26\124\225\55\372\162\223\276\175\347\240\114\334\357\226\15\267\240\35\255\364\306\15\176"
-  "\100\333\26\276\173\147\206\253\125\322\144\273\242\253\57\245\35\312\27\151\321\270\245\345\306\155\233\270\237\47\373\106"
-  "\341\166\125\64\365\237\156\331\146\327\224\273\32\275\365\253\225\47\107\20\213\22\172\344\131\263\45\107\11\352\365\316"
-  "\251\164\24\217\126\361\50\62\34\140\43\66\276\312\121\257\370\52\134\325\52\2\16\354\307\77\313\104\307\11\104\60"
-  "\23\15\27\17\51\221\77\275\203\46\100\236\331\240\107\240\41\146\104\205\323\145\55\50\340\204\207\1\111\316\354\162"
-  "\56\245\27\110\326\202\330\322\200\103\33\372\221\106\166\27\4\344\203\300\126\53\131\117\247\232\206\202\315\60\153\372"
-  "\131\73\373\54\121\127\164\21\223\172\151\204\271\127\72\135\110\311\27\360\202\172\332\200\224\235\161\46\210\162\72\17"
-  "\347\235\175\356\254\235\1\217\320\162\260\313\147\42\254\7\161\17\236\107\377\73\372\361\137\345\177\215\376\361\337\377"
-  "\376\217\243\177\374\373\177\364\75\2\335\301\20\41\302\213\27\270\236\50\250\62\240\72\122\340\324\66\256\340\20\354"
-  "\12\65\43\64\3\324\256\17\41\30\215\22\321\51\127\43\30\41\21\225\360\73\371\111\230\3\116\276\134\105\254\104"
-  "\357\134\350\237\360\370\63\50\167\26\315\143\132\65\313\166\104\354\357\305\75\365\102\223\130\15\231\172\213\370\105\72"
-  "\263\373\1\117\175\274\217\204\150\24\351\207\76\270\4\351\330\331\325\67\134\176\23\375\372\122\310\122\102\3\372\345"
-  "\3\317\306\144\174\51\206\224\133\32\123\36\52\306\220\341\261\5\364\332\112\220\12\311\70\354\307\101\245\36\212\305"
-  "\0\302\27\170\265\70\276\330\64\125\316\301\143\337\161\344\251\174\350\24\174\234\373\23\177\224\373\103\311\310\142\306"
-  "\126\17\37\46\326\351\207\102\353\75\336\17\200\305\324\255\242\225\176\345\60\155\124\164\154\144\167\341\202\120\143\45"
-  "\126\36\247\121\4\247\362\72\113\140\374\6\310\352\153\0\256\304\202\107\204\122\171\355\255\277\144\376\47\53\36\372"
-  "\145\377\165\50\343\312\10\132\26\165\232\247\111\203\125\170\172\31\107\47\227\161\164\134\306\62\325\22\56\344\355\27"
-  "\367\266\56\137\130\242\65\330\60\254\16\265\321\71\25\231\110\354\145\341\6\360\357\265\276\141\23\374\247\157\105\2"
-  "\320\42\221\354\311\23\265\13\371\263\143\140\41\131\230\32\73\3\365\327\212\56\266\264\1\325\312\273\44\234\66\104"
-  "\346\235\17\231\201\213\203\275\154\33\74\363\44\122\337\144\217\312\256\3\270\157\34\201\363\252\357\153\206\107\270\111"
-  "\70\302\5\101\21\350\166\62\25\136\371\212\30\217\43\52\363\141\117\276\174\115\237\77\113\362\305\236\126\341\253\71"
-  "\267\74\313\55\317\22\220\147\171\276\45\132\156\211\226\133\242\345\315\116\247\147\46\132\246\27\114\264\140\351\41\122"
-  "\163\113\303\334\322\60\201\241\272\133\32\6\141\107\277\11\314\217\306\210\46\117\263\233\323\71\272\361\306\131\230\24"
-  "\260\347\175\160\207\323\77\340\375\374\102\74\107\243\170\160\246\101\267\60\215\321\275\232\103\231\350\243\315\246\241\243"
-  "\301\266\63\11\70\263\47\1\245\347\133\236\217\257\67\174\130\236\57\212\177\201\74\337\55\317\167\313\363\335\362\174"
-  "\267\74\337\55\317\167\313\363\301\365\233\334\22\175\37\223\350\123\42\347\103\257\117\372\125\166\345\344\212\344\302\22"
-  "\43\50\277\311\244\170\231\267\144\313\365\223\55\307\225\356\313\255\230\157\125\77\354\363\334\55\111\14\267\254\65\114"
-  "\355\172\37\376\362\340\260\101\174\305\267\100\114\74\370\162\37\367\56\372\226\105\144\251\305\52\224\67\2\303\257\253"
-  "\351\163\115\235\17\164\377\321\155\310\55\101\371\351\72\112\123\251\72\274\120\303\205\44\262\21\227\73\242\313\115\120"
-  "\54\214\103\25\241\231\224\202\11\77\324\21\45\32\302\162\353\170\52\27\262\137\277\75\67\262\255\231\152\7\121\5"
-  "\244\75\17\133\334\215\245\340\52\271\141\152\256\127\261\164\334\246\346\206\337\372\16\130\17\241\132\372\23\206\164\176"
-  "\362\170\116\70\301\13\65\42\151\31\47\322\337\224\274\140\350\123\241\141\261\360\104\76\3\142\377\347\330\241\230\163"
-  "\113\17\233\256\275\54\171\317\251\41\101\351\101\165\170\76\376\4\227\121\246\172\220\32\203\170\176\236\45\372\315\57"
-  "\311\32\76\55\54\355\260\322\100\367\176\235\274\146\336\133\11\270\26\324\140\173\334\316\26\203\200\113\2\145\377\5"
-  "\142\226\103\256\352\305\47\110\75\215\206\133\325\261\155\125\337\215\375\353\272\35\354\243\243\200\50\22\202\103\327\134"
-  "\261\52\76\150\375\114\76\164\375\250\377\240\133\161\273\235\346\323\52\372\156\352\220\61\153\163\345\356\356\51\361\104"
-  "\243\376\252\147\102\70\173\127\72\12\22\307\141\274\52\257\311\45\130\306\140\313\50\212\331\364\102\242\270\37\135\135"
-  "\22\344\112\227\4\203\40\132\260\242\150\166\373\355\252\167\322\276\50\233\12\21\12\224\255\127\165\352\226\24\352\103"
-  "\163\333\254\330\367\177\130\326\75\301\316\307\214\30\303\70\53\40\161\30\352\275\17\330\75\332\302\24\305\171\152\325"
-  "\311\325\356\33\304\323\51\157\73\371\343\35\26\245\44\155\54\64\155\307\245\211\347\107\217\13\226\30\317\133\26\41"
-  "\17\356\171\246\55\170\246\16\312\324\325\361\47\2\120\211\201\236\201\34\320\263\206\34\333\374\115\73\33\376\5\371"
-  "\363\353\235\356\66\165\340\150\75\136\342\241\53\166\274\361\375\45\241\206\41\57\35\117\354\324\134\77\60\106\52\76"
-  "\66\64\306\71\326\165\117\137\41\261\276\102\40\256\31\252\211\346\12\163\312\262\371\374\352\171\15\74\270\70\250\101"
-  "\63\365\271\243\343\311\6\100\63\350\266\202\153\321\354\243\201\355\6\154\67\140\123\102\32\372\325\240\13\270\362\342"
-  "\252\43\244\241\375\44\24\56\124\16\247\264\232\267\222\67\201\141\215\107\377\0\334\172\361\236\4\111\265\335\222\170"
-  "\374\253\240\175\300\75\217\343\226\335\32\264\144\133\45\45\42\104\333\217\320\311\236\200\117\77\353\317\73\77\112\25"
-  "\34\111\104\105\31\377\254\230\110\326\306\104\344\20\207\224\311\101\216\341\43\45\212\136\141\152\270\300\320\1\360\207"
-  "\61\37\375\64\13\144\21\52\212\13\361\316\370\127\70\357\171\217\361\174\50\256\333\217\353\163\55\325\237\252\125\331"
-  "\335\371\72\133\16\20\104\376\113\314\377\276\317\367\376\127\325\200\175\16\121\374\52\72\100\374\333\377\2\370\367\173"
-  "\265\52\66\223\205\313\344\163\153\151\63\365\60\370\363\273\37\245\1\157\207\1\135\107\73\232\55\367\175\27\43\146"
-  "\316\144\72\146\330\34\236\344\336\72\140\34\72\40\67\317\352\57\156\174\315\341\357\132\110\236\14\115\362\70\16\41"
-  "\271\76\220\334\167\357\342\151\34\115\356\107\343\373\150\116\376\270\107\160\216\116\150\324\170\10\360\110\121\167\171\175"
-  "\50\252\213\126\174\344\150\346\121\141\122\244\357\205\171\62\207\364\132\165\256\132\356\77\222\315\211\302\346\130\147\223"
-  "\172\372\141\154\16\77\13\12\170\167\330\55\66\253\373\72\232\53\302\66\317\20\275\42\377\262\116\123\47\331\110\303"
-  "\240\276\150\250\230\127\227\314\356\223\107\345\133\42\332\160\11\314\214\325\256\350\214\162\345\203\305\361\150\76\322\247"
-  "\136\37\54\174\121\37\345\62\234\252\352\364\6\254\116\322\313\330\261\250\173\60\103\272\352\255\326\255\312\211\352\35"
-  "\76\133\325\243\116\213\372\77\255\352\154\131\27\253\262\376\272\153\226\145\225\76\146\351\123\364\267\262\332\45\313\364"
-  "\71\153\316\31\265\351\52\312\260\257\337\175\225\177\50\64\17\113\124\337\271\350\372\345\370\243\327\273\242\111\253\355"
-  "\62\331\355\213\306\203\212\370\245\171\127\13\234\176\72\36\152\175\44\275\206\32\20\223\366\265\336\236\257\153\241\63"
-  "\305\222\77\24\172\350\212\361\263\201\116\337\270\252\100\105\350\52\256\232\175\355\361\214\137\377\50\12\372\52\255\116"
-  "\126\131\321\352\325\31\4\144\105\326\144\55\237\177\246\313\264\170\314\252\135\41\344\360\157\257\304\211\12\246\125\265"
-  "\253\134\270\55\366\333\145\331\124\265\133\372\275\375\162\275\177\70\375\7\66\131\227\75\40\177\220\2\5\373\261\42"
-  "\344\147\340\221\374\352\312\374\225\271\152\44\76\254\374\326\274\76\172\307\22\53\37\147\346\50\163\173\364\326\370\133"
-  "\370\22\62\225\24\111\132\141\213\51\304\242\114\261\13\12\170\36\125\240\156\25\255\136\266\335\142\331\36\324\114\67"
-  "\12\232\244\344\272\255\217\75\147\377\4\34\60\275\340\43\53\101\77\2\362\56\262\46\102\26\334\263\155\373\261\113"
-  "\50\107\131\205\141\104\371\130\73\105\113\362\46\55\272\204\174\52\356\162\203\141\37\252\124\256\255\12\23\114\100\200"
-  "\24\165\24\135\227\57\246\305\1\302\120\330\36\112\200\104\35\342\131\20\124\25\33\122\243\141\322\102\165\13\274\67"
-  "\51\306\361\157\272\177\140\247\300\346\113\307\350\157\72\265\172\55\161\70\231\321\71\135\104\63\253\1\170\330\54\237"
-  "\252\254\111\373\171\117\314\106\272\55\233\27\321\243\101\25\115\167\225\332\76\332\236\305\75\172\375\106\10\170\265\115"
-  "\125\327\75\117\13\270\101\36\27\257\353\317\2\11\154\51\353\272\312\212\57\135\0\270\35\36\256\110\127\106\20\240"
-  "\13\350\270\11\261\356\276\140\240\266\134\216\137\360\110\256\324\320\55\61\176\111\102\50\302\121\17\212\305\76\244\64"
-  "\241\300\104\272\105\262\55\225\103\30\241\243\162\211\32\176\114\55\12\77\100\67\34\375\252\117\105\370\347\221\7\322"
-  "\244\243\53\24\22\357\133\364\76\142\371\240\250\164\364\130\327\351\252\112\276\12\174\174\57\350\343\307\267\364\105\75"
-  "\70\260\115\267\153\267\250\363\235\335\222\126\11\125\30\332\146\233\154\363\374\275\232\224\355\326\277\273\145\233\354\341"
-  "\101\332\33\256\104\164\204\102\173\360\127\117\24\154\223\75\56\367\230\255\127\232\365\263\17\376\272\7\141\51\101\3"
-  "\31\361\50\21\364\322\116\24\312\74\125\333\271\20\250\130\146\305\46\253\322\244\71\116\125\73\56\147\12\76\100\67"
-  "\7\106\77\231\104\51\57\216\251\243\360\75\70\214\243\110\233\2\306\334\101\73\70\243\72\150\370\17\161\111\277\151"
-  "\256\353\14\233\211\334\14\227\116\354\170\121\244\117\137\126\245\213\15\155\201\176\176\240\253\246\275\42\312\240\66\227"
-  "\235\253\176\47\372\14\377\121\116\225\150\323\123\274\121\344\314\232\164\52\315\324\21\375\141\121\126\63\15\244\117\370"
-  "\37\265\23\215\76\174\212\161\10\265\5\204\177\121\47\211\237\271\237\75\53\120\106\275\357\330\375\256\237\126\145\231"
-  "\156\250\224\134\317\224\33\153\172\177\345\204\30\6\207\124\174\113\70\203\230\32\101\146\254\75\22\253\136\71\74\112"
-  "\201\257\11\53\355\262\223\46\15\325\312\110\71\273\234\251\222\27\316\11\224\242\371\76\7\173\352\312\164\246\123\40"
-  "\143\171\55\0\254\206\360\251\230\170\315\336\250\51\201\62\36\316\134\333\155\46\330\4\101\302\22\366\32\355\274\326"
-  "\117\136\20\243\116\322\122\235\71\177\231\361\20\163\46\73\171\215\143\335\103\220\106\70\11\335\373\230\362\64\264\77"
-  "\172\1\271\350\226\101\46\164\357\76\277\42\313\103\337\77\50\331\360\165\365\355\260\262\172\270\257\237\267\52\75\270"
-  "\273\346\344\171\156\153\101\207\373\263\50\166\173\137\124\351\52\371\272\132\347\162\163\110\27\67\111\231\372\34\267\257"
-  "\371\217\372\276\57\262\126\76\7\341\160\375\62\357\146\170\4\123\363\207\113\75\136\13\250\34\102\226\244\103\327\235"
-  "\162\237\347\357\324\235\143\35\51\350\177\307\203\275\43\50\5\323\176\301\354\355\223\32\353\175\362\55\155\152\115\257"
-  "\224\234\260\22\260\200\176\111\357\226\360\233\64\324\306\272\174\277\23\65\372\15\112\14\267\71\56\75\125\214\203\333"
-  "\305\241\363\302\56\211\16\66\154\345\16\102\151\352\15\233\163\175\103\107\337\253\112\3\203\266\142\305\327\361\137\151"
-  "\145\7\34\206\22\151\130\126\31\33\353\117\233\13\251\6\365\217\255\354\115\355\10\162\135\340\230\15\56\177\23\102"
-  "\310\102\206\223\247\30\365\175\221\147\305\133\56\341\361\273\134\207\37\217\44\217\372\301\3\75\34\171\315\171\216\116"
-  "\315\163\270\175\20\207\315\56\42\232\260\113\121\130\154\2\272\326\347\220\22\260\17\140\107\112\135\312\66\371\350\136"
-  "\164\375\365\234\345\366\56\77\172\215\337\163\136\147\135\36\74\141\151\275\117\222\13\372\334\77\106\221\132\171\124\57"
-  "\237\304\62\327\142\265\260\3\102\255\140\207\154\60\307\207\71\15\374\6\34\10\226\152\330\114\76\30\333\112\4\117"
-  "\326\222\50\127\77\107\274\267\75\67\126\244\147\145\263\365\341\242\271\214\107\141\207\46\245\245\53\205\62\261\305\260"
-  "\257\350\311\20\367\122\206\206\366\112\104\113\326\37\337\336\60\51\1\1\125\260\344\172\112\200\341\76\136\11\110\331"
-  "\225\225\300\60\375\376\177\220\252\340\354\222\33\31\335\301\12\367\117\350\41\15\260\215\261\273\36\24\143\370\250\321"
-  "\314\174\340\205\233\72\252\244\376\74\244\220\275\300\132\277\256\127\76\175\227\322\350\276\332\103\126\154\326\337\232\143"
-  "\276\136\234\263\325\113\207\72\152\334\163\235\177\333\146\305\351\254\46\51\176\355\24\242\217\46\363\311\142\74\163\256"
-  "\324\40\252\256\366\143\120\23\236\152\70\162\302\13\13\30\35\25\163\315\211\210\117\273\101\360\250\364\174\230\317\252"
-  "\161\4\220\44\350\241\135\273\211\347\347\134\215\114\17\207\322\45\333\376\275\240\237\157\57\361\142\213\242\121\160\370"
-  "\63\367\273\50\335\357\135\365\245\350\267\270\233\364\167\3\167\323\341\166\2\24\377\73\155\7\25\130\363\106\3\135"
-  "\220\364\217\213\145\127\110\32\136\116\3\77\353\214\252\307\225\61\74\271\152\112\117\106\266\237\306\271\154\144\130\301"
-  "\63\157\102\115\244\60\274\60\75\367\253\40\112\66\324\21\174\170\1\352\326\145\75\200\107\127\330\335\36\140\263\307"
-  "\163\127\237\247\22\164\346\31\274\322\36\32\102\47\35\342\222\212\167\200\240\207\42\355\331\141\320\240\125\43\242\310"
-  "\261\3\36\10\111\312\27\317\33\305\372\376\10\123\201\150\30\131\327\177\226\45\144\114\164\252\350\17\334\102\202\366"
-  "\335\304\4\333\62\226\64\66\344\345\356\246\357\264\256\154\251\137\22\12\131\310\34\230\73\43\132\146\175\223\301\316"
-  "\303\367\77\234\104\356\200\6\42\156\146\270\216\20\164\75\140\333\163\110\267\360\107\175\16\150\60\306\52\224\45\75"
-  "\312\22\17\145\356\31\324\77\15\7\226\224\223\221\104\324\372\317\353\170\3\330\336\221\12\36\232\126\115\164\341\351"
-  "\111\166\323\60\174\101\163\114\130\12\365\370\25\52\170\112\61\155\274\106\311\176\332\111\256\247\212\122\166\137\334\274"
-  "\135\166\303\63\122\104\16\156\365\367\110\152\341\250\375\70\177\365\353\376\254\74\352\153\330\256\263\133\375\267\337\13"
-  "\13\307\271\303\162\376\153\360\334\143\332\303\365\154\242\76\17\210\347\161\245\200\134\353\117\352\262\333\1\271\156\1"
-  "\122\170\156\77\372\34\127\345\157\275\130\313\176\353\26\154\322\202\146\344\63\76\23\22\315\2\237\11\1\140\77\240"
-  "\314\263\157\333\157\121\326\212\315\65\123\165\300\165\366\40\137\124\43\256\112\267\166\342\72\305\61\134\154\157\215\321"
-  "\256\172\151\313\312\227\241\257\207\347\216\212\347\177\75\35\277\351\370\115\307\173\112\176\276\226\317\46\256\226\267\5"
-  "\146\55\277\151\271\230\146\321\362\356\363\264\42\55\206\170\32\45\266\23\47\132\256\23\147\327\362\150\166\161\65\337"
-  "\256\363\264\20\65\77\174\342\135\66\75\65\244\173\230\265\262\203\72\222\323\354\236\264\255\272\124\24\302\17\337\132"
-  "\122\253\266\346\270\262\136\16\53\31\365\276\335\317\242\367\235\273\237\215\147\211\123\126\274\146\126\72\127\21\263\274"
-  "\116\377\100\263\254\324\323\116\320\372\204\121\210\134\17\124\24\11\211\106\62\43\340\62\122\341\273\225\51\274\343\46"
-  "\54\163\374\373\346\141\261\154\272\60\10\30\150\224\207\131\232\113\76\313\222\170\212\54\77\236\222\170\57\36\312\234"
-  "\32\370\101\104\21\255\225\324\203\376\70\103\176\156\267\121\354\247\112\124\327\322\341\214\35\312\266\221\172\305\120\210"
-  "\142\303\162\263\237\123\44\206\205\200\226\10\276\201\11\0\3\212\254\27\135\113\50\234\15\171\60\136\274\220\242\347"
-  "\135\245\205\271\211\134\350\361\76\106\13\105\62\174\120\230\231\110\317\357\202\356\52\2\347\333\357\365\64\54\1\323"
-  "\243\267\147\1\301\305\263\37\362\71\112\0\122\246\367\220\126\125\261\373\333\341\177\337\365\322\353\123\322\354\266\353"
-  "\145\362\365\333\233\176\304\123\342\176\157\127\317\171\252\333\344\334\144\202\33\233\133\55\163\323\222\67\224\141\104\253"
-  "\200\133\273\227\265\173\307\111\0\61\146\173\202\364\355\147\264\225\1\126\211\77\261\176\156\77\13\157\276\336\243\72"
-  "\260\76\146\353\254\363\234\340\65\173\201\271\41\362\217\62\307\23\347\331\222\51\271\111\354\17\114\170\32\162\113\253"
-  "\212\33\45\106\125\253\241\151\350\13\73\116\130\105\373\164\201\363\61\146\110\231\101\314\266\66\233\225\363\10\205\357"
-  "\151\12\231\155\315\363\271\276\351\364\240\36\212\15\347\123\245\221\325\116\7\30\132\331\4\277\176\163\373\116\263\253"
-  "\346\231\152\217\75\124\236\100\206\355\127\66\361\165\267\153\257\205\203\143\11\66\362\155\131\340\136\176\347\356\345\261"
-  "\267\227\267\244\364\15\172\107\16\217\133\225\346\215\74\336\25\14\360\254\231\363\263\237\376\263\137\102\11\337\0\350"
-  "\27\302\374\33\16\113\70\111\160\367\60\325\226\267\124\6\337\112\135\367\227\373\145\116\51\124\26\31\236\23\335\351"
-  "\173\102\343\353\107\376\171\145\67\232\10\104\143\57\57\1\172\150\203\152\215\175\211\351\141\210\341\265\55\344\315\110"
-  "\116\3\21\27\204\140\242\220\26\123\314\147\335\31\253\132\314\317\261\104\61\241\142\215\114\173\127\332\234\335\240\66"
-  "\310\263\350\250\264\201\66\210\152\245\33\40\172\123\227\267\102\44\224\46\150\256\154\56\240\222\346\321\50\1\335\153"
-  "\12\267\125\227\366\152\155\270\252\3\277\352\224\243\57\205\326\341\114\100\64\214\11\320\265\45\174\233\55\14\333\315"
-  "\317\304\340\264\14\217\357\75\160\47\170\267\377\371\177";
-
-/* lib/string.wo (DEFLATEd, org. size 23745) */
-static unsigned char file_l_43[2033] =
-  "\314\126\335\152\363\70\20\275\137\330\167\30\202\56\334\233\22\273\24\112\240\354\213\54\4\105\232\44\336\310\226\42\311"
-  "\64\351\323\257\353\111\52\224\161\352\232\302\107\357\74\307\147\146\216\346\107\250\150\254\356\14\202\10\321\327\355\356"
-  "\357\277\0\212\272\161\326\107\130\50\37\27\260\10\116\54\240\330\31\273\221\6\104\217\255\172\4\212\246\213\120\77"
-  "\125\17\17\17\43\76\15\66\326\237\173\67\372\40\267\313\367\62\171\114\145\241\4\31\73\104\155\352\315\107\12\151"
-  "\214\125\275\317\266\153\25\10\302\127\204\102\341\244\227\315\340\16\205\307\320\231\121\261\350\175\153\373\130\153\154\302"
-  "\56\245\27\3\276\32\320\21\11\52\236\35\366\136\321\166\316\241\377\224\60\340\253\13\72\45\201\7\63\366\215\5"
-  "\43\164\42\130\322\115\75\134\205\350\243\75\254\367\326\150\364\251\123\304\325\62\312\117\246\16\117\117\2\224\155\103"
-  "\4\151\352\135\373\132\302\342\237\256\75\264\366\255\5\364\336\372\177\227\313\5\171\222\260\213\347\346\35\275\205\2"
-  "\117\164\214\301\44\36\134\325\12\35\50\361\47\320\222\111\54\143\225\64\217\73\214\3\221\260\376\367\43\251\131\62"
-  "\122\113\10\115\321\343\266\66\206\0\217\261\363\303\317\21\231\75\133\51\167\116\102\57\300\244\324\340\125\16\334\230"
-  "\55\157\6\134\102\16\232\101\34\11\274\232\56\67\325\76\267\353\122\114\25\207\260\360\201\35\31\53\170\305\130\216"
-  "\220\115\17\35\100\224\342\112\260\16\104\45\170\201\71\162\333\225\62\1\241\333\260\204\127\376\226\105\72\162\344\213"
-  "\330\122\353\257\217\34\21\207\222\261\250\216\43\163\362\344\174\143\245\176\131\7\260\333\155\300\370\272\274\256\110\142"
-  "\340\51\142\373\301\141\342\324\76\261\102\264\36\137\130\30\46\165\360\141\221\31\153\214\224\240\343\124\17\322\276\0"
-  "\364\336\227\31\361\151\44\10\244\217\14\115\63\304\366\164\162\11\367\76\355\40\331\267\53\30\176\270\157\301\335\131"
-  "\240\300\172\34\176\321\146\204\157\14\334\117\147\200\147\143\103\300\170\34\232\267\111\311\101\173\353\376\320\224\65\56"
-  "\115\31\331\154\312\312\233\173\276\232\73\147\212\42\44\273\312\155\175\157\14\113\126\41\125\162\126\305\131\25\53\7"
-  "\343\350\337\63\320\252\34\207\346\214\216\52\47\227\202\205\254\236\237\23\44\331\114\123\35\31\64\127\130\365\163\141"
-  "\167\13\33\21\123\47\375\272\336\122\47\347\155\16\173\76\174\157\165\330\43\151\346\33\151\142\171\330\173\206\275\136"
-  "\46\336\173\312\272\363\275\120\323\247\153\260\111\247\43\373\366\164\173\171\16\121\252\3\73\121\146\42\152\203\71\326"
-  "\114\336\30\347\374\202\70\345\346\177\271\171\310\115\63\132\305\44\227\115\50\257\22\211\146\304\23\43\66\137\335\12"
-  "\273\270\356\256\73\237\35\366\316\6\241\11\310\63\44\62\36\337\377\157\347\12\173\33\66\201\350\237\351\347\151\115"
-  "\263\356\347\114\155\112\324\65\266\353\6\147\113\377\375\254\10\351\11\136\331\63\47\346\146\51\122\245\312\27\0\356"
-  "\270\343\216\307\1\324\331\322\56\215\63\337\256\162\47\50\315\35\146\206\77\270\354\2\170\116\227\210\123\336\241\353"
-  "\72\367\250\3\26\163\214\261\363\70\20\127\124\244\203\140\165\341\203\356\262\203\104\245\337\172\53\363\133\157\13\74"
-  "\131\37\257\257\220\253\203\2\133\344\117\165\76\171\170\302\233\320\207\122\22\255\154\54\221\3\165\103\22\317\231\321"
-  "\231\47\227\333\322\22\100\205\262\346\172\56\317\123\71\227\356\222\230\217\215\237\327\22\223\215\32\270\25\115\142\240"
-  "\171\243\373\225\326\57\343\120\170\175\123\272\323\151\335\261\356\32\301\54\354\175\33\331\373\303\135\364\343\157\167\314"
-  "\166\205\225\125\114\213\20\271\224\351\47\123\12\103\314\117\354\232\40\103\222\206\14\331\71\262\34\242\310\362\1\63"
-  "\224\174\154\361\141\334\207\365\357\177\71\304\133\201\160\103\341\244\167\123\304\336\374\55\271\253\305\333\156\11\60\152"
-  "\347\354\357\247\21\254\5\102\312\133\237\354\241\373\115\36\346\115\360\317\34\72\72\365\43\343\241\61\141\223\3\110"
-  "\173\216\122\106\56\264\141\104\361\172\366\314\32\3\142\36\247\76\13\166\12\220\364\103\367\126\6\136\146\360\131\26"
-  "\42\6\255\233\256\17\352\142\115\255\17\115\33\161\56\155\224\363\277\335\223\167\21\264\5\232\206\267\354\170\26\116"
-  "\52\256\37\337\342\371\132\23\234\72\331\301\51\234\27\40\274\115\116\377\126\2\262\230\11\61\42\201\140\231\267\363"
-  "\20\206\222\37\357\367\327\204\316\140\236\123\142\232\123\101\254\243\2\0\262\15\314\112\64\210\327\143\66\14\342\302"
-  "\43\5\231\105\301\2\372\214\31\227\207\72\31\246\13\274\260\257\176\132\202\315\265\261\63\50\242\1\157\242\356\210"
-  "\122\164\344\142\366\104\271\256\225\16\220\137\152\76\351\346\174\322\167\271\236\346\141\260\136\107\106\126\160\70\123\220"
-  "\242\102\126\65\256\235\242\262\211\154\350\76\306\203\36\130\174\334\107\313\52\41\124\107\247\230\320\122\107\316\21\32"
-  "\117\372\14\115\267\307\21\176\34\240\337\201\120\301\213\370\104\275\227\73\11\137\30\224\54\77\256\336\63\0\252\235"
-  "\21\272\377\172\122\313\303\24\114\351\226\120\127\73\167\366\61\361\220\30\370\104\333\114\51\165\101\34\47\11\104\324"
-  "\306\37\131\16\311\225\111\5\214\240\202\55\342\323\343\141\77\54\255\371\345\24\107\204\363\67\331\262\64\335\156\141"
-  "\174\367\365\376\246\163\203\226\143\264\260\166\150\50\311\45\246\242\31\120\134\355\45\226\204\373\35\143\324\230\107\133"
-  "\350\320\271\170\151\235\277\313\147\303\373\345\251\165\245\113\247\57\135\72\271\62\223\112\54\250\346\236\311\127\261\240"
-  "\201\1\77\20\327\117\150\333\275\266\4\267\377\61\206\170\32\307\153\301\20\61\242\206\41\222\311\117\261\271\27\240"
-  "\210\53\334\112\220\247\160\166\250\262\135\150\370\211\27\32\30\61\145\165\252\166\135\101\35\123\222\342\112\126\355\233"
-  "\335\201\34\373\365\73\365\346\324\33\10\333\134\164\212\302\16\165\163\344\311\64\205\313\276\272\213\203\260\252\232\26"
-  "\273\106\346\106\363\301\25\315\351\303\176\225\327\344\117\123\274\151\310\2\116\5\66\350\143\0\212\361\50\141\203\32"
-  "\240\242\311\365\35\313\111\122\120\55\276\243\341\135\347\166\323\12\40\230\341\334\273\42\64\46\232\31\230\137\266\165"
-  "\123\344\147\160\37\21\22\27\10\102\117\373\247\363\134\350\33\341\271\60\2\226\222\276\26\144\104\372\164\122\374\312"
-  "\150\40\13\103\313\110\370\65\124\272\72\350\161\174\76\36\240\245\201\120\43\241\3\104\271\161\260\35\100\331\327\243"
-  "\333\76\353\153\147\175\355\254\317\310\22\31\17\346\120\130\30\217\32\343\43\21\350\125\211\62\15\15\251\206\274\46"
-  "\355\337\117\103\10\344\24\33\241\160\365\124\305\274\57\133\365\121\210\74\267\327\237\250\210\261\152\75\112\363\114\132"
-  "\232\111\163\75\67\340\172\304\72\375\3\163\120\374\24\373\213\371\117\277\367\200\7\36\164\152\76\352\213\37\304\316"
-  "\237\36\150\40\262\150\46\275\16\75\377\55\24\221\33\43\201\204\237\306\130\36\57\256\373\263\57\135\1\235\371\20"
-  "\61\214\41\126\372\124\343\267\14\235\374\227\131\370\101\10\20\167\272\137\242\341\70\133\206\220\143\112\241\45\272\132"
-  "\20\7\311\206\346\107\137\365\163\111\77\74\215\305\127\16\360\266\141\144\336\27\212\210\7\241\311\40\205\7\22\225"
-  "\166\113\164\257\160\242\103\277\213\240\147\257\205\210\271\262\47\122\143\104\132\361\261\174\220\43\40\307\146\220\226\0"
-  "\221\54\61\210\0\224\314\31\316\5\12\233\252\53\53\253\141\331\175\36\223\205\165\37\23\110\165\57\357\204\206\261"
-  "\207\47\126\151\22\347\106\263\205\151\71\172\114\175\63\352\171\324\23\15\302\6\56\34\224\330\5\232\374\372\361\123"
-  "\203\16\2\73\227\206\147\267\67\260\251\215\255\31\33\144\246\343\2\350\137\251\116\200\102\66\100\272\254\257\64\274"
-  "\167\35\154\76\20\254\173\115\35\42\157\62\231\126\375\270\154\270\347\375\261\307\160\3\201\316\266\135\245\27\73\134"
-  "\321\223\35\304\325\300\327\127\271\245\174\314\254\245\161\171\367\30\342\10\224\44\300\10\257\104\153\206\103\301\177\261"
-  "\307\156\372\303\33\223\51\104\47\277\77\106\47\65\76\163\210\162\164\373\137\370\135\350\154\270\214\12\321\123\331\313"
-  "\206\264\5\241\77\321\173\103\332\274\243\311\233\377\376\1";
-
-/* lib/time.wo (DEFLATEd, org. size 46152) */
-static unsigned char file_l_44[4434] =
-  "\354\132\347\262\243\74\22\375\275\351\35\124\56\373\313\343\102\10\60\366\346\234\163\216\24\66\302\103\55\351\202\270\351"
-  "\351\27\220\55\33\132\255\145\264\71\114\24\115\237\116\352\76\142\140\76\50\252\244\313\71\131\213\254\340\237\373\64"
-  "\41\37\144\105\135\65\202\254\116\215\130\221\125\133\257\127\344\203\163\136\35\343\234\254\173\331\241\227\220\17\212\116"
-  "\220\214\271\37\176\370\241\6\123\360\242\152\136\172\230\134\110\330\145\355\0\4\352\105\72\230\150\77\305\155\26\265"
-  "\145\134\267\157\53\21\325\15\177\314\370\23\355\15\234\362\352\364\347\150\310\41\72\163\321\333\112\273\362\104\326\172"
-  "\375\303\124\233\174\120\307\115\134\214\356\324\72\360\76\234\312\33\336\166\271\66\351\126\44\171\166\354\203\350\155\361"
-  "\362\121\71\227\362\203\224\56\67\326\144\345\171\65\56\116\365\213\62\46\345\7\51\235\30\263\60\134\352\55\227\6"
-  "\323\126\361\27\65\364\62\110\377\126\303\71\57\241\341\101\272\324\30\157\232\262\132\251\277\125\347\215\327\207\361\317"
-  "\1\6\67\72\33\120\155\131\367\76\105\252\142\30\157\34\256\142\220\235\105\71\145\100\162\52\17\221\170\155\271\220"
-  "\103\47\1\375\237\333\123\125\266\202\70\72\300\360\307\153\125\162\362\1\177\226\241\137\45\253\17\315\146\222\130\304"
-  "\27\43\111\374\322\106\131\31\25\125\51\336\222\307\270\41\161\236\235\313\57\172\144\365\7\232\376\301\161\56\277\50"
-  "\127\353\145\362\277\27\66\121\353\25\10\276\17\72\32\22\300\343\376\274\132\375\116\255\236\157\326\367\273\333\372\350"
-  "\337\326\211\167\133\247\354\56\32\372\7\207\312\265\243\126\77\122\253\102\255\140\254\117\175\240\121\31\27\174\22\154"
-  "\233\275\362\57\272\341\240\114\206\16\111\267\367\173\323\262\265\274\103\6\351\266\356\104\324\253\220\52\115\133\56\276"
-  "\350\134\356\1\224\147\102\171\30\312\67\241\102\14\25\230\120\324\305\140\73\43\54\300\140\241\11\346\242\5\331\33"
-  "\141\36\234\212\241\362\104\316\214\334\51\112\126\77\357\112\270\261\262\336\100\367\207\25\246\353\3\335\137\164\34\321"
-  "\15\200\356\257\171\202\350\356\240\335\267\35\242\33\2\335\157\65\31\242\273\207\165\210\5\336\340\151\227\347\357\334"
-  "\345\224\132\265\71\165\255\372\234\62\253\106\247\236\135\247\123\337\256\325\151\140\327\353\164\367\356\315\116\251\256\333"
-  "\373\375\104\232\202\272\272\216\67\350\63\135\327\267\6\200\247\153\375\322\10\361\165\23\320\230\20\201\156\16\14\372"
-  "\73\335\54\164\15\104\250\323\11\31\5\17\37\205\275\325\50\270\216\325\50\270\324\152\24\134\327\156\24\134\146\67"
-  "\12\256\147\67\12\256\157\304\341\145\61\217\36\136\27\343\350\61\274\56\241\21\207\327\305\330\54\36\132\27\146\356"
-  "\26\75\105\300\203\340\173\61\166\310\271\16\234\54\176\304\224\51\44\223\270\301\224\41\363\174\265\106\225\31\264\214"
-  "\116\267\353\301\4\73\64\101\137\243\234\143\312\1\214\271\73\143\312\32\222\341\65\246\34\2\345\37\237\4\246\14"
-  "\167\360\107\325\43\242\314\340\16\176\203\237\60\232\63\35\373\70\327\61\327\212\353\30\263\342\72\346\131\161\35\363"
-  "\355\270\216\5\166\134\307\166\166\134\307\102\73\256\143\173\73\256\363\34\73\256\363\250\35\327\171\256\35\327\171\354"
-  "\335\271\216\271\72\256\353\342\6\343\16\306\164\174\327\230\20\236\216\364\116\157\61\165\137\107\173\131\216\251\7\357"
-  "\100\174\154\247\43\76\216\151\207\72\346\103\155\357\165\324\327\265\30\107\171\216\216\375\170\161\344\15\206\240\72\12"
-  "\254\14\0\127\107\203\106\27\114\307\205\70\42\156\117\303\337\321\261\113\357\350\220\112\72\164\3\240\177\56\200\272"
-  "\142\117\6\325\43\361\72\60\55\64\355\123\127\247\374\30\347\232\60\174\255\341\44\315\305\104\171\105\10\321\46\171"
-  "\11\102\275\172\222\327\253\17\141\12\132\376\127\336\226\237\0\313\201\332\241\366\141\53\376\342\167\310\216\7\240\15"
-  "\307\114\250\116\25\66\307\246\45\233\166\303\22\262\331\272\311\101\375\101\66\311\37\112\304\341\16\66\345\227\61\125"
-  "\266\134\325\203\261\305\144\163\44\233\76\230\147\262\371\55\206\323\260\315\17\61\135\110\65\77\101\165\167\60\236\144"
-  "\273\51\266\170\44\41\104\174\347\260\371\341\141\363\163\14\261\207\10\245\52\137\344\252\267\247\263\67\247\122\207\134"
-  "\137\332\256\153\61\171\161\53\277\26\134\124\362\352\164\171\223\134\65\243\226\22\35\353\365\124\220\316\5\31\235\13"
-  "\334\271\200\315\5\336\105\40\335\313\327\300\333\63\27\352\63\212\274\61\252\157\333\101\176\224\62\203\362\355\275\60"
-  "\15\156\222\266\73\116\160\355\4\267\300\273\340\174\110\32\312\62\12\34\73\27\101\340\155\371\263\340\145\22\365\367"
-  "\242\366\46\155\105\325\160\105\10\227\75\15\161\63\327\204\234\353\17\25\305\65\142\25\131\57\311\27\176\73\2\251"
-  "\214\373\76\217\42\360\175\346\337\204\161\231\334\56\370\303\353\345\42\5\21\151\153\345\256\201\236\222\15\171\346\125"
-  "\234\300\272\340\145\120\167\222\354\61\352\226\25\230\347\55\137\26\55\133\317\135\277\241\13\175\224\11\160\121\13\270"
-  "\301\112\120\162\130\110\205\203\221\171\153\64\3\274\216\366\241\57\265\255\40\160\120\341\300\65\134\164\115\71\254\1"
-  "\213\215\175\172\243\261\361\122\361\330\337\237\267\160\22\372\77\11\271\140\372\376\55\270\307\74\102\140\152\255\333\363"
-  "\337\147\46\222\54\115\247\247\273\224\300\23\136\120\71\34\352\332\31\257\325\344\244\303\5\10\116\120\50\272\353\41"
-  "\325\273\251\54\353\43\157\104\324\337\220\35\145\214\274\345\247\66\22\125\44\212\131\234\323\60\153\1\77\51\317\47"
-  "\174\370\54\72\242\224\144\60\76\225\274\360\270\231\211\32\136\110\44\163\47\302\1\14\204\22\77\221\76\234\242\323"
-  "\313\51\347\63\261\136\372\240\225\216\137\242\147\262\341\333\322\124\362\2\44\71\217\353\277\337\203\226\22\370\163\101"
-  "\60\27\354\346\202\360\42\200\155\2\346\55\330\355\235\320\17\203\75\165\174\352\273\367\7\165\56\24\7\245\223\235"
-  "\6\304\211\237\326\320\343\325\141\270\13\303\275\33\336\73\74\53\207\134\321\107\252\234\51\206\100\207\336\354\170\357"
-  "\323\336\153\350\350\46\105\261\233\354\322\271\317\60\360\34\23\111\253\347\232\26\34\100\103\63\203\330\254\175\64\274"
-  "\210\356\220\117\115\134\17\223\15\222\270\14\14\116\301\223\315\5\361\1\70\14\161\340\370\44\1\351\112\44\314\130"
-  "\225\1\264\15\310\26\154\17\122\117\16\217\30\206\133\204\321\50\325\70\1\206\166\177\237\215\220\274\141\267\13\172"
-  "\354\16\57\277\202\200\221\60\156\202\27\70\373\335\262\336\6\351\2\377\212\175\55\174\377\35\172\136\71\261\353\171"
-  "\143\214\346\246\327\216\271\252\6\60\12\37\64\361\52\302\255\304\243\145\201\357\172\112\50\267\15\24\12\213\352\16"
-  "\310\37\320\72\131\346\264\70\45\263\103\74\327\242\313\261\10\144\332\370\6\323\277\126\261\7\44\4\327\137\124\262"
-  "\7\313\66\260\52\31\100\202\134\355\53\246\12\157\56\230\172\66\263\152\61\24\155\256\227\202\131\324\113\41\361\114"
-  "\315\345\152\27\133\127\57\143\360\7\53\270\221\366\217\141\140\210\140\14\252\120\12\10\331\123\351\250\164\345\343\356"
-  "\142\136\242\23\6\5\163\24\242\4\173\126\256\60\15\301\271\174\32\307\166\317\154\111\135\234\71\176\72\330\333\67"
-  "\267\314\213\351\274\306\247\10\355\23\320\255\150\311\251\343\340\115\202\133\61\237\325\327\370\200\155\160\246\341\46\244"
-  "\113\171\241\75\155\357\112\162\34\137\76\255\135\370\106\5\240\344\77\352\256\342\252\46\153\52\121\362\353\16\362\377"
-  "\221\101\32\243\24\333\20\163\335\165\57\36\74\174\200\24\214\107\272\251\75\66\121\226\252\324\257\225\370\113\173\347"
-  "\275\50\73\152\203\361\227\231\77\123\14\256\363\62\333\157\157\247\246\75\175\346\372\344\52\61\277\145\77\30\341\170"
-  "\122\266\133\73\126\343\103\200\100\270\77\145\31\36\157\153\121\364\264\336\0\143\320\212\112\123\304\234\74\42\176\171"
-  "\370\162\367\315\257\206\214\125\213\355\103\74\225\312\356\104\140\21\257\307\274\263\62\176\110\272\206\136\146\351\116\206"
-  "\310\44\4\165\235\26\305\330\37\206\171\130\372\151\220\13\201\67\376\174\104\123\315\177\157\252\57\352\355\217\355\62"
-  "\33\153\366\15\116\344\262\234\111\347\274\47\270\256\242\157\330\311\177\65\53\75\224\250\33\46\241\156\161\77\213\355"
-  "\165\213\102\267\174\214\5\253\346\312\305\101\50\67\234\104\32\301\41\173\21\262\307\23\61\326\110\266\22\75\235\112"
-  "\163\130\375\324\165\130\275\370\25\124\355\62\27\53\70\121\275\374\17\56\74\256\323\237\32\56\102\103\207\2\230\235"
-  "\211\175\10\73\221\364\360\317\35\224\157\224\314\31\211\242\255\11\356\43\322\63\172\243\210\276\264\35\65\356\242\224"
-  "\45\243\340\341\220\156\76\155\152\6\311\365\332\161\243\217\172\334\240\260\172\270\351\6\177\365\164\71\126\265\236\340"
-  "\335\266\357\343\303\317\333\6\376\345\325\343\223\154\341\247\277\135\252\64\113\367\142\364\342\141\145\7\273\56\252\155"
-  "\147\274\313\367\217\251\67\102\312\174\134\162\333\240\66\211\137\175\156\313\224\170\162\10\126\333\257\234\106\271\345\14"
-  "\3\5\351\314\302\136\312\364\267\244\314\170\113\312\54\134\240\354\44\152\234\271\232\125\226\163\305\353\167\225\165\144"
-  "\144\161\107\204\345\142\171\251\210\65\76\145\210\305\313\123\360\101\74\146\233\220\126\56\256\256\145\55\364\57\370\201"
-  "\162\270\126\305\336\261\325\170\74\231\323\261\22\347\32\275\114\203\116\347\241\255\11\304\11\340\165\340\117\56\116\110"
-  "\223\12\6\45\162\347\312\7\272\112\257\323\170\340\100\17\275\57\114\305\340\273\36\375\221\243\357\45\57\224\14\265"
-  "\376\23\252\203\74\70\21\257\77\70\161\213\347\311\50\175\365\223\43\44\53\374\343\107\324\170\163\355\3\124\131\321"
-  "\321\160\16\51\217\177\212\103\226\265\213\264\276\210\313\42\270\104\377\224\331\230\350\144\152\71\313\336\313\22\370\6"
-  "\76\55\41\334\142\252\244\1\372\173\255\201\163\60\44\2\375\63\121\132\344\326\25\343\143\365\366\310\73\354\214\44"
-  "\350\301\312\221\123\246\262\35\212\3\42\30\361\301\226\375\157\237\111\313\123\377\154\146\275\333\303\4\340\201\223\123"
-  "\266\13\206\337\342\200\351\26\372\177\60\114\234\17\165\355\305\212\21\215\57\36\202\115\260\320\100\375\77\120\313\43"
-  "\272\275\45\377\303\114\261\367\364\230\302\205\150\263\241\143\134\166\237\24\230\256\271\245\64\67\334\331\31\313\5\277"
-  "\253\332\105\107\40\140\137\36\162\263\317\361\154\24\357\316\260\120\141\51\127\301\217\136\102\324\253\345\324\271\274\315"
-  "\220\313\15\265\162\1\235\26\300\377\343\137\202\316\247\352\376\257\302\260\110\272\264\254\47\172\271\227\321\266\302\326"
-  "\107\333\7\263\35\217\257\145\366\377\57\4\316\347\114\170\337\340\171\123\14\267\271\107\25\20\132\375\133\76\140\120"
-  "\332\324\101\67\143\152\100\332\330\264\271\226\23\13\254\352\130\207\44\246\111\67\244\46\72\41\263\371\351\116\357\52"
-  "\61\376\225\61\227\211\371\127\337\77\3\16\360\220\160\337\153\277\47\230\343\115\314\6\7\23\311\73\64\260\165\214"
-  "\175\120\100\120\224\164\62\245\233\107\135\175\310\316\373\320\354\101\362\117\144\320\105\220\25\242\312\223\173\321\257\210"
-  "\365\245\312\106\6\254\47\350\252\101\300\306\53\154\201\376\124\244\334\376\55\60\234\334\136\22\212\212\51\277\153\20"
-  "\376\364\141\133\322\273\76\263\240\367\223\274\262\343\211\125\253\247\247\265\346\25\325\244\11\351\371\351\347\357\337\76"
-  "\74\362\167\337\177\145\371\102\6\230\326\360\107\320\176\372\365\316\36\363\331\336\63\16\2\242\371\161\52\50\73\130"
-  "\2\327\146\106\3\125\347\356\267\353\132\136\132\0\200\23\326\341\124\26\15\340\211\134\212\52\257\111\323\212\232\165"
-  "\116\105\351\177\316\55\312\32\45\114\131\374\44\153\45\117\266\312\114\320\53\123\232\215\212\27\72\335\217\216\343\235"
-  "\316\76\347\136\41\173\32\335\344\323\371\315\332\236\35\236\336\347\0\341\166\260\116\102\330\250\307\233\343\235\72\320"
-  "\370\246\331\123\335\114\210\255\165\106\305\122\243\240\266\226\131\134\322\107\174\121\136\46\256\10\203\125\226\306\370\330"
-  "\340\16\116\306\77\137\211\17\73\300\17\351\232\14\42\224\35\72\55\67\171\271\23\202\366\72\27\170\314\5\211\102"
-  "\265\374\44\317\156\116\114\16\36\33\211\47\217\77\155\17\307\134\356\117\164\34\75\276\274\215\61\147\312\345\22\372"
-  "\212\214\112\304\366\2\226\150\331\131\61\363\301\1\2\346\312\15\13\54\12\371\205\212\374\21\142\114\2\1\304\126"
-  "\161\17\366\204\111\33\304\40\137\156\17\205\354\153\117\37\205\75\245\52\107\41\150\130\332\10\132\204\234\151\150\43"
-  "\147\20\162\226\256\215\34\325\100\147\15\70\256\317\50\133\57\236\344\42\73\204\130\245\112\66\277\221\174\302\250\210"
-  "\31\353\216\262\261\312\22\162\214\255\62\364\257\77\117\203\277\21\375\205\47\256\214\374\177\301\235\167\204\246\377\16"
-  "\104\235\351\150\175\271\245\236\177\250\333\214\264\111\124\136\125\34\131\275\124\333\224\27\346\102\331\231\120\375\104\310"
-  "\272\213\356\33\373\40\177\130\366\330\151\142\143\211\204\75\202\17\300\152\355\355\252\345\131\271\60\54\102\23\233\356"
-  "\326\256\376\234\160\63\20\247\45\177\4\133\26\133\360\273\115\310\170\323\271\350\102\172\215\200\25\202\51\52\7\4"
-  "\66\14\125\265\206\20\215\124\72\252\161\114\333\337\263\4\267\324\67\161\155\306\261\345\321\145\7\365\331\67\271\61"
-  "\353\254\320\164\140\101\24\172\374\371\325\253\17\311\216\305\335\66\170\77\76\375\370\360\364\375\247\365\153\132\322\317"
-  "\137\331\345\256\232\274\313\314\74\71\215\57\274\333\316\124\67\51\133\155\315\371\132\25\265\170\324\365\101\246\121\362"
-  "\46\347\123\60\2\31\126\160\364\252\37\250\204\326\310\20\331\136\265\142\341\332\277\63\63\355\342\112\333\247\207\344"
-  "\62\336\27\12\343\312\143\322\21\76\375\370\227\55\345\365\47\233\350\130\337\321\221\350\41\271\211\366\313\363\347\247"
-  "\55\351\202\366\213\116\240\131\11\63\172\233\121\336\176\171\176\10\161\113\303\153\172\325\161\364\75\265\106\70\103\261"
-  "\16\224\0\112\4\245\7\145\0\145\4\145\2\145\6\145\1\5\72\307\16\24\372\67\202\322\203\62\200\62\202\62"
-  "\201\62\203\262\200\2\235\373\16\224\0\12\101\321\203\62\200\62\202\62\201\62\203\262\200\2\235\207\16\224\175\57"
-  "\210\137\272\177\113\101\37\176\165\211\41\372\44\351\32\127\162\153\142\124\3\131\251\217\250\316\131\203\136\375\301\346"
-  "\176\276\256\74\347\45\22\312\72\257\157\341\161\243\373\260\65\45\316\311\363\224\74\217\311\163\372\176\237\74\307\344"
-  "\71\44\317\335\366\71\234\223\347\45\171\236\223\347\51\171\36\223\347\41\171\356\223\347\230\74\207\344\71\321\57\121"
-  "\57\321\56\121\56\321\155\24\60\301\54\204\273\166\25\300\262\206\147\206\320\300\306\74\42\0\150\5\151\23\70\114"
-  "\143\25\207\211\14\246\52\6\13\30\314\261\212\101\10\344\320\327\161\210\344\60\327\161\30\31\40\53\165\230\311\141"
-  "\254\343\260\220\103\245\25\147\162\130\352\360\24\310\341\134\307\141\0\207\163\127\307\141\44\207\72\77\214\144\120\347"
-  "\206\231\14\352\274\300\206\10\135\235\27\102\107\26\335\124\307\242\47\213\256\316\216\60\220\105\250\354\336\23\131\204"
-  "\112\114\165\144\21\53\101\25\311\42\206\72\26\66\110\75\330\210\374\217\42\40\2\256\317\216\362\366\322\164\152\272"
-  "\270\167\174\342\302\245\301\124\122\67\304\155\377\71\236\374\63\46\326\4\144\77\241\357\266\324\277\153\115\113\315\127"
-  "\206\253\341\137\141\65\137\3\253\245\34\126\141\72\20\126\102\203\20\256\304\125\277\43\256\370\211\146\267\245\7\300"
-  "\352\134\166\65\110\227\363\360\220\101\330\146\265\146\271\252\144\53\233\352\330\110\247\67\72\271\357\245\375\257\117\347"
-  "\341\222\112\64\201\270\260\110\372\62\350\313\132\366\261\14\307\330\133\133\26\205\145\303\325\127\100\21\47\241\20\47"
-  "\243\307\233\313\15\303\144\332\335\260\203\120\62\67\104\111\74\65\160\111\114\134\2\225\137\222\325\145\133\55\140\216"
-  "\270\155\334\54\156\27\300\174\321\150\240\236\67\203\345\263\137\373\3\1\33\272\206\210\355\13\343\132\10\236\376\37"
-  "\363\150\327\37\327\70\30\54\41\36\143\71\201\46\372\321\1\110\354\217\161\315\356\135\260\127\206\267\234\132\14\245"
-  "\135\320\65\267\10\223\337\333\107\365\300\351\30\303\217\217\364\55\347\46\143\51\314\26\217\267\207\33\236\302\206\363"
-  "\76\226\35\17\224\330\162\112\60\271\46\261\345\345\174\176\51\241\367\336\67\315\4\303\230\113\341\244\314\371\352\164"
-  "\272\62\51\22\346\322\54\204\153\26\326\335\160\337\214\161\167\313\216\352\233\175\303\276\271\154\236\316\231\236\12\141"
-  "\154\12\377\321\204\145\344\202\363\361\325\307\127\77\363\360\204\35\230\324\107\21\263\310\37\64\76\214\337\315\201\173"
-  "\164\50\177\70\176\247\166\370\215\305\351\326\331\265\262\30\156\71\322\55\173\231\166\74\124\316\15\241\22\234\73\5"
-  "\163\333\235\202\30\235\372\54\215\365\51\315\334\364\235\13\157\30\132\17\310\120\70\66\67\302\361\306\37\326\35\373"
-  "\330\260\73\16\245\160\353\367\361\70\257\115\142\223\334\0\336\206\343\254\327\210\74\76\143\330\217\307\371\347\370\150"
-  "\325\53\357\114\107\171\147\377\140\65\50\333\347\206\301\152\74\351\233\375\264\103\373\130\227\336\330\373\124\5\355\234"
-  "\116\271\331\306\371\124\311\152\56\215\357\113\346\334\360\376\261\365\354\76\124\277\347\141\203\206\51\70\216\265\326\170"
-  "\305\173\276\264\106\47\246\50\317\377\165\104\152\144\147\235\256\76\370\105\105\305\125\270\74\27\306\323\153\160\21\76"
-  "\125\151\305\41\11\325\176\231\273\237\151\55\201\333\204\214\147\270\6\77\205\130\165\65\333\157\326\303\76\344\34\227"
-  "\261\205\316\374\214\273\172\245\10\372\205\5\71\76\27\263\154\307\74\340\50\253\170\264\67\14\74\132\113\266\363\307"
-  "\127\150\147\370\13\64\251\44\35\210\120\24\166\14\224\355\375\313\157\47\150\336\277\47\163\127\234\262\243\326\342\163"
-  "\13\2\6\262\273\123\15\215\143\12\364\136\27\161\371\353\357";
+/* lib/math.wo (DEFLATEd, org. size 160240) */
+static unsigned char file_l_39[15163] =
+  "\355\175\153\167\353\270\221\340\367\371\25\336\156\115\322\275\167\344\0\40\370\352\164\347\336\74\246\47\175\46\263\231"
+  "\364\144\62\173\162\264\353\120\24\151\311\226\45\131\222\155\111\263\47\277\175\101\352\5\342\131\40\51\331\327\55\247"
+  "\117\256\11\223\100\241\120\125\50\24\352\361\325\303\164\360\64\316\256\72\17\311\162\370\17\127\127\137\215\36\146\323"
+  "\371\362\352\213\164\276\374\342\352\213\305\254\363\305\325\127\267\343\151\77\31\137\165\130\333\67\254\345\352\253\207\247"
+  "\345\325\310\43\137\177\375\265\374\311\103\366\60\235\257\331\127\333\137\266\137\355\176\107\252\17\324\143\224\335\363\57"
+  "\347\331\344\371\213\342\237\171\62\132\144\331\52\315\146\354\353\257\362\247\111\172\325\51\376\370\115\345\117\127\137\315"
+  "\222\171\362\300\201\71\110\226\311\166\236\337\364\147\127\317\311\374\52\31\217\156\47\337\105\127\137\364\20\22\377\313"
+  "\321\107\125\153\364\361\13\261\263\301\354\146\150\355\256\372\337\247\36\362\172\375\250\227\21\145\167\143\150\167\101\157"
+  "\200\172\151\376\333\136\326\357\345\203\77\374\112\352\354\257\331\174\352\10\133\345\277\10\111\135\16\223\361\367\326\56"
+  "\63\45\366\62\324\353\347\122\207\343\11\371\375\17\312\36\331\373\171\366\233\353\136\26\174\224\132\64\75\375\341\217"
+  "\325\236\236\277\135\373\275\54\217\173\131\362\35\367\173\257\77\220\276\376\23\210\46\162\332\303\250\207\361\361\277\4"
+  "\63\130\172\221\377\237\14\264\36\216\173\11\173\27\377\365\143\257\37\366\6\375\136\222\364\342\262\71\145\377\117\331"
+  "\233\361\217\5\364\121\320\113\23\266\164\154\1\177\325\355\245\136\157\71\51\76\310\7\275\210\1\227\111\300\375\271"
+  "\12\134\372\237\305\117\157\340\177\334\224\243\162\20\245\230\1\231\375\272\327\367\172\270\337\353\47\5\174\111\377\43"
+  "\3\46\50\10\46\242\154\12\203\136\314\120\32\173\354\151\322\313\30\102\274\237\365\42\362\361\53\106\226\177\351\245"
+  "\161\357\213\207\207\217\75\354\367\42\157\213\361\136\32\261\271\374\27\133\5\234\365\162\122\374\67\210\176\367\333\217"
+  "\303\142\344\150\320\303\111\57\17\177\306\260\223\4\275\230\204\5\12\242\350\357\154\276\37\213\336\23\66\57\104\172"
+  "\50\57\110\36\223\217\213\377\370\133\201\231\264\377\324\313\31\33\144\275\1\335\60\304\54\147\377\263\227\367\145\32"
+  "\36\115\106\313\233\273\173\16\1\264\130\35\302\55\215\307\375\116\53\374\261\377\135\352\365\337\177\230\22\315\202\177"
+  "\142\140\374\217\136\36\127\110\270\373\273\345\257\170\276\350\305\321\367\114\34\174\173\150\373\333\237\172\151\272\372\145"
+  "\345\235\250\134\203\34\305\307\276\257\376\161\23\125\336\371\202\141\236\55\100\120\241\64\74\140\250\31\371\22\324\313"
+  "\227\351\315\364\71\233\337\314\106\2\76\330\120\214\262\223\2\53\277\373\137\223\222\132\323\257\213\65\144\277\15\360"
+  "\177\365\176\136\376\62\140\253\137\64\365\313\5\50\206\372\266\27\307\275\270\150\373\165\57\106\277\145\377\246\177\52"
+  "\126\234\275\335\147\157\145\214\166\312\337\103\106\255\305\133\337\114\72\145\117\344\337\176\303\376\375\241\300\161\126\202"
+  "\274\144\154\165\135\302\236\62\32\140\143\226\374\332\57\247\122\164\367\165\257\217\213\277\25\255\321\257\12\242\50\140"
+  "\364\375\142\372\14\146\66\132\371\165\234\26\44\23\225\253\330\247\77\233\25\200\375\375\246\34\222\321\26\56\60\371"
+  "\37\154\262\361\356\335\234\226\277\105\375\233\355\67\137\25\130\350\17\266\262\272\207\363\162\75\330\54\362\274\27\227"
+  "\43\62\52\214\331\2\224\170\301\370\27\114\36\24\277\115\376\312\272\140\277\74\260\117\36\212\206\64\377\173\260\235"
+  "\125\332\57\161\367\375\37\13\376\54\6\315\362\202\60\272\154\272\45\130\214\303\176\376\124\316\312\57\246\233\26\57"
+  "\175\367\337\275\274\234\177\36\62\360\266\237\221\37\13\326\56\332\372\367\205\4\52\306\147\34\201\313\116\120\364\177"
+  "\12\76\102\45\61\377\205\375\313\72\110\277\337\312\34\266\2\367\354\267\253\136\77\55\4\6\142\30\147\102\50\56"
+  "\173\310\274\136\22\27\50\106\350\377\62\101\203\267\175\25\104\227\225\340\107\76\133\336\162\61\31\113\142\132\216\25"
+  "\15\76\15\167\264\67\210\12\304\260\337\177\276\370\267\75\303\4\145\47\151\362\227\35\361\60\161\220\104\213\22\244"
+  "\214\374\215\375\173\337\213\322\55\355\110\344\71\231\215\246\344\146\370\42\320\346\236\235\212\177\227\237\376\137\157\300"
+  "\100\46\133\56\303\361\247\315\35\103\304\266\365\213\117\5\321\345\203\177\54\377\370\365\247\157\276\377\47\366\347\137"
+  "\174\352\365\376\5\227\157\260\257\342\364\236\356\136\363\77\25\144\34\345\141\371\172\374\251\24\170\364\33\366\331\267"
+  "\237\376\312\46\367\35\373\370\343\247\77\374\375\123\321\301\257\77\215\231\264\372\115\331\315\157\76\25\163\110\310\157"
+  "\313\356\176\367\251\227\244\364\237\167\235\262\177\331\222\247\301\367\273\316\377\345\23\133\326\377\375\373\162\210\37\76"
+  "\111\123\146\277\115\206\243\252\44\141\244\302\250\2\371\267\254\137\306\163\114\224\106\335\337\375\271\234\157\306\320\20"
+  "\263\141\230\40\306\214\211\172\250\277\350\25\4\165\174\203\41\112\71\310\130\334\310\63\222\375\202\111\217\60\377\260"
+  "\371\266\40\262\36\133\140\46\307\223\242\353\157\13\36\110\13\321\263\141\222\230\375\165\46\274\22\343\157\345\121\204"
+  "\115\246\67\77\354\62\275\224\26\304\315\70\247\220\26\345\177\214\56\330\266\307\310\47\362\266\364\335\371\241\227\222"
+  "\217\217\75\34\174\131\156\31\301\143\101\261\375\174\162\365\207\102\164\244\203\177\146\34\364\361\201\121\356\262\227\344"
+  "\305\36\322\107\305\56\325\317\377\364\135\241\307\44\214\65\347\214\41\76\26\264\315\66\302\101\366\143\267\24\100\203"
+  "\142\40\66\372\374\271\363\257\377\315\350\375\343\57\306\167\377\304\4\6\55\304\35\373\23\333\364\6\11\303\104\346"
+  "\175\123\274\34\243\35\2\267\252\141\71\265\174\226\216\223\305\142\224\257\257\276\312\126\73\205\362\320\126\276\176\265"
+  "\327\30\73\253\253\74\240\137\137\175\65\317\26\117\343\255\242\173\265\175\141\74\115\13\35\165\236\55\237\331\277\345"
+  "\37\366\155\17\213\227\152\303\130\154\270\271\141\175\25\35\227\175\261\77\135\247\323\311\142\171\105\313\347\362\245\353"
+  "\105\266\334\167\317\265\336\26\255\253\355\147\1\275\236\147\243\311\62\233\317\330\173\67\14\122\356\305\145\226\225\343"
+  "\10\43\170\344\360\155\266\132\146\223\301\15\373\333\315\342\320\270\30\316\157\236\16\337\274\314\223\331\315\50\220\300"
+  "\142\63\24\141\342\207\122\174\126\202\63\226\77\333\367\164\204\20\43\32\371\241\177\150\115\46\203\303\357\323\271\10"
+  "\11\250\113\202\151\100\75\37\205\104\352\225\203\116\61\251\61\327\325\156\354\143\257\350\360\234\75\156\177\315\305\161"
+  "\15\313\231\215\27\231\35\162\373\30\136\343\61\24\330\321\15\206\304\265\62\41\114\374\144\262\205\145\221\215\263\164"
+  "\151\202\172\267\64\342\277\334\60\334\333\354\327\247\371\204\375\52\362\371\150\221\27\352\142\166\344\362\175\13\224\307"
+  "\301\34\127\264\157\147\33\23\34\105\101\104\275\220\220\220\42\337\303\107\176\73\20\62\350\355\35\266\14\323\33\115"
+  "\162\176\156\354\361\244\23\43\36\3\23\171\101\344\323\60\364\43\24\326\234\330\216\266\14\23\233\44\23\176\142\354"
+  "\321\125\52\77\255\70\361\132\107\160\76\255\116\266\260\7\336\252\300\57\102\52\1\100\175\344\371\161\34\220\320\13"
+  "\21\215\175\303\350\110\44\242\203\34\20\331\162\317\132\246\305\230\316\37\30\112\371\365\50\133\152\323\32\173\34\113"
+  "\133\261\162\37\344\44\221\1\300\5\123\121\230\236\62\271\165\43\221\341\152\44\154\322\142\103\165\223\176\113\333\57"
+  "\203\335\161\373\335\356\225\362\147\373\236\216\20\372\204\222\50\72\64\256\52\133\156\71\53\305\350\143\251\33\144\172"
+  "\145\361\324\327\157\253\36\76\276\127\301\206\36\222\312\136\26\322\310\13\150\250\324\37\216\33\136\354\307\136\160\334"
+  "\233\156\227\273\201\264\204\126\220\131\177\264\74\62\302\256\341\204\62\267\53\13\335\310\205\355\365\114\223\145\131\350"
+  "\323\233\5\3\251\77\121\302\277\173\234\354\130\142\67\235\374\300\16\173\46\271\257\362\314\160\45\62\325\347\303\123"
+  "\365\130\112\346\50\221\332\120\205\236\27\322\237\25\264\312\315\367\36\250\21\126\130\315\16\224\231\117\300\272\256\264"
+  "\202\7\232\123\352\155\333\167\362\43\311\256\360\65\342\177\146\37\174\172\365\325\57\257\360\165\204\330\371\64\216\374"
+  "\354\3\16\256\176\371\365\341\303\207\247\261\210\42\13\77\265\107\50\73\241\3\77\135\200\251\300\247\222\160\344\250"
+  "\354\136\207\317\173\23\61\131\126\112\271\54\311\140\0\130\306\211\60\154\327\53\326\356\320\70\136\356\347\227\53\326"
+  "\333\17\62\234\247\44\217\162\246\317\314\272\161\34\226\13\236\25\235\354\27\372\50\324\60\216\2\122\114\53\212\142"
+  "\217\220\210\342\223\113\323\35\361\347\102\217\173\122\340\211\320\15\115\125\54\335\36\261\44\153\202\342\21\113\165\222"
+  "\273\327\217\267\137\306\12\145\4\362\320\173\240\225\13\25\146\324\113\243\10\241\320\217\323\331\7\246\173\156\27\352"
+  "\203\162\241\142\24\323\230\55\22\301\230\104\61\212\360\116\211\370\54\126\12\200\112\220\110\276\25\50\277\306\344\51"
+  "\141\170\14\102\242\320\360\115\2\275\173\220\102\236\146\67\321\10\14\116\54\215\45\371\137\225\224\117\316\362\164\14"
+  "\135\52\111\232\103\326\213\233\75\47\77\307\331\105\372\250\160\304\241\250\112\323\13\45\7\134\350\325\211\136\115\72"
+  "\115\167\253\323\370\327\276\217\61\366\61\311\272\70\124\351\64\126\205\75\237\263\323\207\111\137\317\146\313\271\115\145"
+  "\27\165\364\21\124\147\77\174\200\73\102\17\104\154\360\72\165\216\76\157\135\315\327\352\317\152\112\257\322\163\331\321"
+  "\110\32\276\130\61\161\362\14\301\332\55\146\261\234\316\263\253\151\236\263\376\276\103\373\233\65\261\327\21\100\111\275"
+  "\315\32\52\40\362\144\70\74\331\217\20\202\362\341\170\224\220\146\270\275\67\10\264\132\350\117\340\30\242\73\322\271"
+  "\23\40\351\30\166\130\3\11\52\26\112\331\277\327\221\326\323\73\16\71\236\46\203\32\44\156\76\142\141\104\210\322"
+  "\2\305\53\313\60\356\162\332\315\170\10\102\34\120\32\160\74\50\137\150\15\127\347\331\211\225\324\167\136\325\116\267"
+  "\313\245\331\150\154\62\252\311\133\332\10\125\367\237\73\341\131\260\354\336\11\177\305\237\213\221\152\204\352\354\136\43"
+  "\111\153\35\241\26\214\124\25\326\362\64\366\213\22\35\167\206\341\14\142\132\372\14\152\142\200\234\134\215\346\217\301"
+  "\174\72\263\342\114\17\115\125\60\154\245\162\244\131\113\265\311\234\137\67\345\326\53\21\302\10\103\266\336\235\145\130"
+  "\202\223\211\46\22\260\43\116\23\60\305\153\133\371\322\211\277\332\127\257\363\221\15\370\1\0\263\67\35\42\140\250"
+  "\161\67\154\276\56\321\31\154\15\322\127\274\156\244\107\374\302\164\100\34\41\255\46\46\216\326\305\372\345\131\161\53"
+  "\240\122\117\234\251\115\301\34\222\334\360\61\4\153\167\62\326\10\155\335\232\252\200\127\113\140\12\26\222\161\153\22"
+  "\256\274\232\3\144\55\154\147\255\167\316\75\46\204\152\247\71\122\273\306\130\230\111\45\331\261\266\243\375\5\255\211"
+  "\215\53\13\76\66\131\61\357\14\43\217\367\327\241\155\115\124\226\32\167\300\155\304\204\232\46\202\306\76\32\152\123"
+  "\121\126\114\103\151\254\202\150\363\47\121\272\363\361\164\72\347\334\74\370\146\363\35\367\105\35\277\250\343\157\112\35"
+  "\277\315\164\352\70\72\205\22\356\140\202\151\101\123\357\62\125\235\206\61\242\10\135\124\365\317\104\331\30\267\256\252"
+  "\77\135\124\365\213\252\376\23\121\325\307\27\125\375\242\252\137\124\365\243\252\76\237\76\355\272\157\117\43\307\266\73"
+  "\137\341\375\57\175\245\16\177\121\321\57\52\272\101\333\20\254\341\146\315\302\64\257\56\256\43\347\253\106\156\365\375"
+  "\233\40\6\35\116\6\27\345\271\105\122\341\302\20\334\265\340\355\35\363\105\327\375\174\165\335\57\175\200\266\373\245"
+  "\377\31\353\273\126\335\21\277\73\335\161\347\333\144\147\113\156\141\57\272\241\233\156\270\234\263\266\323\352\206\213\325"
+  "\117\336\76\13\124\144\26\253\167\257\106\162\137\55\132\367\54\22\343\332\100\334\262\70\222\236\152\127\3\254\111\27"
+  "\67\320\347\164\102\353\64\156\312\215\61\364\271\352\53\6\270\117\56\361\365\204\322\206\32\244\45\240\323\157\64\52"
+  "\302\320\5\361\131\167\242\207\351\40\67\271\252\217\0\256\352\43\313\126\144\271\130\154\342\271\176\150\240\142\203\57"
+  "\66\4\235\213\361\343\263\335\265\106\6\377\373\272\52\300\353\11\370\242\135\351\303\34\331\17\77\357\305\216\61\62"
+  "\70\264\53\367\27\30\302\76\23\12\60\106\322\251\166\113\240\173\176\123\153\312\347\303\23\52\344\24\175\250\242\22"
+  "\242\343\10\73\71\246\122\122\332\127\262\224\253\106\73\65\2\135\120\151\314\120\205\266\300\361\6\124\371\214\11\157"
+  "\64\27\341\176\153\236\24\326\44\70\265\342\204\364\350\263\204\57\275\43\151\362\31\137\171\53\371\310\277\354\25\16"
+  "\173\105\320\171\365\3\130\303\115\250\245\63\324\333\331\147\44\63\366\207\111\62\1\272\201\262\143\233\351\324\266\266"
+  "\131\23\47\346\204\100\303\265\360\274\61\7\43\217\326\146\343\343\310\34\273\74\26\76\37\157\54\47\104\326\360\45"
+  "\46\357\74\107\321\332\141\42\137\142\162\232\271\254\25\163\341\7\323\116\147\15\12\307\254\145\236\225\21\274\130\151"
+  "\122\241\151\26\144\270\166\365\11\335\106\363\112\223\32\257\235\16\101\365\42\270\207\56\141\342\107\75\251\346\140\246"
+  "\71\352\262\306\255\333\111\32\147\236\341\376\32\314\246\11\112\54\44\107\202\103\337\56\176\37\214\236\1\232\242\221"
+  "\306\304\144\47\340\357\232\46\37\222\205\312\170\55\337\53\66\13\361\67\216\121\125\351\346\131\176\55\324\272\60\160"
+  "\262\205\146\266\177\76\212\216\375\232\361\227\237\346\215\332\260\71\233\270\317\41\205\201\364\255\116\331\355\263\217\356"
+  "\257\72\162\100\77\33\314\263\147\7\250\254\101\105\51\237\316\256\72\12\73\31\40\342\252\204\161\263\205\156\176\303"
+  "\50\160\17\335\16\126\205\365\141\245\275\215\126\244\113\33\35\114\330\312\276\364\135\125\64\116\156\262\375\371\141\252"
+  "\145\247\374\357\73\320\17\74\262\233\203\257\300\67\41\166\174\313\64\1\200\157\273\30\264\245\305\360\53\213\21\264"
+  "\270\30\101\133\213\101\271\5\340\177\367\73\126\203\313\320\75\155\204\7\233\237\125\25\160\141\357\265\33\173\107\60"
+  "\366\326\355\300\32\212\12\133\242\250\250\102\121\261\334\353\332\211\242\326\307\5\217\333\242\250\220\243\42\376\367\110"
+  "\315\336\30\303\370\173\155\47\12\60\177\143\324\322\162\354\201\337\317\205\264\270\40\252\316\152\12\134\304\113\334\312"
+  "\3\6\260\371\272\145\66\137\203\23\21\165\53\231\146\364\301\150\242\70\60\336\271\50\322\112\31\363\307\50\215\163"
+  "\125\12\25\241\127\334\304\115\364\52\223\223\346\71\321\54\371\255\62\271\226\107\14\337\153\357\314\41\247\263\61\30"
+  "\62\376\344\14\323\177\47\232\143\262\306\135\117\206\323\340\135\72\266\136\312\113\34\173\32\52\134\103\251\160\355\106"
+  "\205\353\23\120\341\332\215\12\327\247\242\102\363\246\13\240\302\265\236\12\327\55\122\341\332\112\205\153\53\25\256\300"
+  "\53\273\70\102\273\337\207\16\272\172\271\333\311\352\354\304\66\131\154\37\313\361\234\254\350\147\270\161\72\247\52\172"
+  "\30\157\352\235\246\25\260\157\134\60\260\173\133\245\252\156\352\270\116\14\115\247\227\252\227\260\106\320\143\170\120\53"
+  "\104\230\217\127\246\36\14\322\134\261\246\33\167\37\204\267\157\204\60\116\231\43\2\325\342\155\332\135\74\23\306\15"
+  "\213\267\233\110\251\40\322\216\50\217\52\215\274\104\271\160\73\214\333\157\15\373\351\306\161\125\125\353\146\134\11\247"
+  "\354\241\237\15\317\355\167\67\277\262\273\5\235\23\130\3\77\63\111\334\364\300\131\12\201\100\45\4\2\136\10\370"
+  "\235\206\312\262\313\42\125\241\325\314\215\77\153\252\122\365\233\162\134\313\51\140\325\244\256\366\65\157\341\22\176\274"
+  "\172\15\167\344\223\34\44\170\277\122\375\232\233\17\215\125\267\25\65\221\300\217\22\143\123\251\303\225\333\101\173\157"
+  "\344\60\30\7\114\7\7\227\243\176\375\251\72\343\31\212\233\305\312\141\362\303\372\247\171\5\226\135\200\261\336\16"
+  "\275\133\356\6\46\317\67\170\330\151\203\26\334\203\25\26\217\363\245\133\324\334\146\367\302\336\57\205\351\0\125\327"
+  "\222\171\365\161\51\106\321\141\321\361\105\150\170\224\136\20\202\35\26\302\363\243\120\205\126\30\37\26\51\1\317\137"
+  "\133\314\370\355\105\74\254\352\205\74\254\144\107\262\25\252\125\347\311\126\114\25\26\362\244\165\52\200\27\151\222\47"
+  "\0\332\355\344\317\144\47\273\303\322\233\43\164\157\171\324\266\227\225\100\131\211\240\126\354\207\141\1\24\172\34\340"
+  "\155\213\127\207\321\162\6\212\261\341\313\25\273\335\20\142\376\370\241\270\244\61\140\120\273\66\17\22\361\233\264\366"
+  "\7\335\230\32\152\121\334\217\231\225\0\120\177\304\174\375\264\173\277\70\132\20\305\311\202\310\136\0\73\374\322\216"
+  "\65\105\4\267\0\36\140\1\304\243\5\304\301\131\276\354\243\35\205\133\202\171\134\63\202\220\164\335\56\335\365\201"
+  "\56\377\124\151\4\252\351\22\212\105\360\72\222\57\7\177\353\57\21\43\354\336\221\327\340\332\42\124\131\363\35\325"
+  "\272\57\60\14\246\356\133\117\305\12\71\363\340\170\357\371\0\245\123\337\30\360\127\245\144\320\244\37\364\224\243\365"
+  "\52\123\342\16\202\316\312\216\46\117\300\152\36\321\21\64\154\55\127\146\256\160\130\115\363\301\344\341\47\205\57\265"
+  "\50\56\367\316\205\44\234\37\255\237\140\351\23\151\153\101\161\210\175\311\11\144\256\164\247\122\373\327\100\363\301\362"
+  "\113\201\364\235\50\362\301\54\115\14\155\320\13\227\320\121\26\152\240\24\113\273\64\373\125\111\357\77\72\201\360\150"
+  "\123\265\336\45\321\33\150\11\233\203\255\346\12\137\50\265\117\224\154\273\26\316\202\62\331\107\74\331\307\255\220\75"
+  "\166\242\206\45\66\362\15\200\65\232\172\114\33\173\207\305\110\56\215\124\301\230\367\11\26\351\250\167\313\136\272\141"
+  "\125\136\204\45\214\153\164\177\207\341\141\341\312\232\162\355\71\367\140\320\205\123\106\254\5\162\20\77\256\202\120\301"
+  "\354\113\130\126\57\223\262\257\37\72\323\37\353\325\40\50\373\222\76\170\164\43\266\107\174\221\350\65\45\172\254\220"
+  "\350\261\354\345\12\77\362\200\23\327\73\230\166\71\111\274\251\143\26\276\155\66\160\211\262\215\206\106\1\231\107\15"
+  "\47\177\231\320\37\135\144\311\243\166\117\251\207\247\245\106\72\310\163\5\30\61\353\314\104\346\140\131\227\206\110\2"
+  "\5\106\36\261\265\153\254\344\170\273\300\1\130\361\36\1\347\61\143\75\110\230\60\61\114\111\35\107\277\162\41\100"
+  "\371\370\16\210\243\267\310\126\325\211\337\105\234\77\300\356\310\125\151\140\127\47\213\106\137\235\67\3\344\6\166\225"
+  "\65\233\276\64\12\340\26\56\266\222\125\365\171\163\63\24\33\306\325\206\231\370\306\114\174\143\215\253\317\113\361\231"
+  "\124\237\347\302\135\233\360\50\374\171\131\175\174\252\76\76\127\37\137\252\217\346\312\104\367\325\307\365\150\301\26\254"
+  "\332\346\30\376\156\13\167\267\305\263\53\343\327\111\124\155\133\10\350\134\210\13\264\20\27\150\51\276\261\24\337\50"
+  "\306\361\350\45\116\376\30\47\117\242\63\306\311\163\203\65\210\223\257\133\62\272\146\220\373\250\151\220\273\232\320\330"
+  "\343\170\57\3\27\305\256\223\214\107\223\133\265\56\50\47\302\320\145\175\66\252\121\216\245\311\325\61\347\255\24\137"
+  "\207\335\74\33\117\323\343\125\343\324\111\115\123\3\214\326\16\30\73\307\140\100\314\255\133\304\34\240\300\275\124\276"
+  "\100\161\113\355\350\104\153\234\237\123\142\15\376\356\21\152\136\251\311\162\373\336\141\174\15\50\345\260\335\311\35\142"
+  "\354\115\11\45\345\10\117\22\221\40\14\271\13\60\175\70\26\61\200\6\42\146\5\225\30\374\131\107\355\205\111\226"
+  "\42\376\136\337\235\41\233\235\304\107\162\341\244\173\120\326\60\56\343\175\235\316\306\340\174\23\352\5\343\62\336\333"
+  "\116\126\12\13\31\277\322\206\310\326\361\332\175\243\324\55\63\10\301\13\33\202\341\235\215\15\200\275\16\202\201\377"
+  "\266\216\177\7\67\261\363\154\4\155\310\143\107\240\15\162\151\55\201\203\224\340\250\12\160\30\162\47\34\106\134\144"
+  "\343\54\135\102\46\142\350\115\165\45\124\34\222\364\223\231\144\267\272\35\314\72\303\75\51\72\372\225\1\366\7\55"
+  "\345\301\346\136\317\334\52\170\320\251\274\346\234\152\322\200\362\157\204\136\110\161\324\60\35\75\54\301\247\152\164\321"
+  "\332\247\107\374\252\116\204\226\174\34\22\275\233\335\150\307\174\216\77\132\270\142\102\74\57\44\310\13\42\237\206\241"
+  "\37\241\120\62\165\1\42\75\222\225\303\311\4\56\55\335\264\373\132\107\57\371\172\261\351\21\145\5\346\132\375\1"
+  "\42\131\131\157\67\116\316\340\33\211\301\45\160\40\211\261\140\212\167\275\175\222\323\12\352\332\41\66\372\151\53\6"
+  "\4\274\155\106\230\202\140\204\111\200\355\366\33\151\153\322\256\217\101\120\154\232\44\75\263\104\143\342\23\257\335\271"
+  "\175\300\353\335\113\56\346\347\304\243\311\137\266\206\56\331\325\315\264\153\230\52\110\227\301\310\307\161\214\21\5\345"
+  "\114\227\77\367\342\10\21\214\11\350\163\255\170\11\35\322\221\100\144\232\370\316\166\107\317\263\311\363\67\171\66\117"
+  "\106\213\54\133\245\331\154\51\332\100\106\223\134\107\165\116\135\212\57\357\206\170\316\346\113\316\204\355\150\3\165\323"
+  "\377\115\72\374\173\301\226\23\326\302\206\131\343\32\321\30\257\352\341\50\12\42\312\324\75\22\122\344\173\130\72\236"
+  "\57\346\100\265\261\53\353\215\121\235\53\322\306\13\50\44\116\177\143\163\161\145\252\345\331\231\352\102\36\157\203\74"
+  "\22\165\142\116\265\100\222\25\34\265\17\354\122\231\272\130\247\301\260\35\275\260\131\134\373\212\263\300\122\361\265\317"
+  "\377\314\272\144\373\265\267\377\1\366\42\300\260\353\205\370\332\252\46\234\252\146\153\347\64\223\27\125\161\130\314\326"
+  "\63\20\24\270\153\112\31\133\372\210\30\341\127\214\360\4\231\55\115\62\324\317\43\177\60\310\51\145\263\335\226\243"
+  "\275\216\211\37\7\44\216\263\56\212\364\321\322\267\346\211\370\244\37\221\74\23\47\102\155\230\344\346\360\54\216\46"
+  "\115\352\131\212\144\345\11\20\103\171\352\340\130\23\50\131\251\176\151\104\331\207\371\331\356\346\374\244\244\42\5\176"
+  "\226\304\174\105\46\245\54\63\157\0\340\34\61\11\40\326\336\367\212\145\217\131\163\310\364\152\342\147\37\260\157\211"
+  "\274\117\254\251\23\174\317\236\226\115\41\305\164\4\320\172\304\270\116\234\332\261\137\347\262\114\343\345\7\135\152\337"
+  "\344\140\161\127\253\340\375\312\166\301\102\74\77\10\210\366\220\143\40\340\173\175\335\53\341\323\60\10\3\14\121\127"
+  "\261\145\14\53\64\240\374\201\15\126\50\160\310\26\155\330\304\255\362\317\340\127\250\0\262\275\242\274\160\207\305\144"
+  "\245\112\321\325\237\351\157\13\233\47\340\322\10\335\247\6\66\314\327\232\6\377\246\302\30\350\262\317\126\345\366\66"
+  "\236\121\152\270\31\276\372\316\273\207\301\371\342\157\253\72\200\147\340\306\73\100\167\156\237\51\367\41\212\71\153\222"
+  "\144\53\363\11\45\121\144\312\314\46\22\21\216\214\216\316\347\346\353\255\6\263\303\263\356\256\341\226\177\351\325\270"
+  "\137\247\176\335\214\255\332\235\304\111\13\171\306\113\216\124\365\32\261\376\353\161\235\23\310\102\6\176\241\156\320\161"
+  "\275\174\36\47\226\3\236\167\374\101\336\341\200\27\50\4\45\327\325\361\363\176\60\50\377\313\223\176\236\37\316\146"
+  "\214\15\374\20\63\66\204\166\263\75\41\342\50\47\1\35\110\7\105\150\57\70\244\1\112\142\74\240\30\341\343\101"
+  "\61\144\377\213\60\241\320\156\6\121\100\223\330\113\143\66\57\166\152\365\166\335\170\50\10\20\33\1\332\115\22\146"
+  "\44\242\11\365\151\226\345\307\156\120\20\207\76\302\221\356\314\305\263\302\271\332\71\22\232\313\344\75\6\120\374\2"
+  "\74\256\24\301\146\351\130\301\210\74\313\250\60\37\125\167\224\222\246\55\104\244\220\325\163\343\71\366\15\154\247\12"
+  "\101\75\67\311\61\40\202\164\142\216\64\220\301\100\11\153\262\225\50\350\120\337\305\255\16\16\50\151\66\64\163\314"
+  "\336\0\171\314\144\234\113\263\122\274\3\266\164\314\156\124\373\111\226\62\45\51\23\15\206\161\200\103\66\111\244\122"
+  "\300\147\146\102\330\110\24\134\136\70\146\44\317\20\246\176\37\341\274\60\55\106\345\215\143\170\215\230\314\15\160\340"
+  "\147\135\24\73\15\166\153\231\323\40\365\22\344\345\3\141\116\101\114\155\222\134\320\221\6\63\231\56\117\165\270\250"
+  "\340\161\254\76\40\253\15\310\74\77\113\16\1\62\325\154\156\40\363\36\236\167\336\202\215\365\163\61\107\52\126\112"
+  "\176\151\251\50\31\173\166\164\253\334\137\70\6\3\232\112\345\243\331\132\134\247\365\353\257\323\32\233\240\274\345\136"
+  "\321\140\146\211\115\222\107\352\154\111\240\173\225\102\236\254\61\170\164\335\136\241\350\225\27\236\12\146\332\270\304\323"
+  "\171\247\261\367\336\251\302\351\270\261\264\166\142\253\33\72\212\74\46\357\21\2\71\70\0\276\126\245\22\167\117\300"
+  "\360\276\157\162\255\73\163\365\132\253\353\323\142\153\216\256\31\236\13\233\166\220\165\161\310\357\316\212\355\141\143\42"
+  "\162\136\200\125\363\52\274\157\274\103\114\372\206\240\320\52\335\23\66\111\217\324\341\232\56\106\1\45\76\241\70\170"
+  "\33\154\203\76\23\46\251\103\337\343\167\213\40\303\165\314\135\275\110\347\166\213\17\336\273\137\24\333\203\17\14\216"
+  "\102\167\206\213\55\223\255\132\231\37\251\72\141\205\126\60\251\43\67\132\301\150\315\153\206\126\57\31\46\372\374\102"
+  "\306\122\174\367\32\157\137\125\72\156\165\206\222\123\337\22\130\157\133\353\346\215\155\36\306\250\146\232\273\332\336\223"
+  "\306\162\27\322\220\112\271\74\264\237\337\24\352\70\114\304\133\324\362\345\153\36\235\70\10\252\232\133\100\62\352\111"
+  "\216\145\101\354\61\361\200\43\142\161\113\171\2\240\145\11\335\371\370\337\253\0\62\245\62\117\274\270\60\337\13\0"
+  "\142\213\17\326\122\351\44\357\247\1\106\151\22\5\251\27\317\272\44\336\172\311\137\307\210\6\76\365\170\223\325\111"
+  "\115\224\352\150\241\147\253\352\0\66\15\276\70\4\305\50\126\167\151\375\334\342\154\350\145\207\373\26\34\154\177\102"
+  "\200\263\141\271\110\101\212\213\377\372\131\177\20\173\263\356\166\215\212\355\203\204\333\237\10\350\266\210\331\21\44\111"
+  "\162\342\17\62\222\62\2\52\317\46\301\165\200\275\320\17\74\302\126\333\207\302\324\357\17\50\116\375\1\11\372\171"
+  "\161\261\265\13\257\270\16\174\317\213\21\51\372\12\200\120\5\136\30\304\41\351\147\11\35\24\316\224\176\321\25\275"
+  "\306\136\204\231\346\245\363\56\74\307\305\224\312\102\204\355\224\140\264\252\54\261\335\63\244\344\154\242\272\375\220\135"
+  "\63\156\141\324\375\142\235\270\142\262\363\6\116\54\163\130\320\231\302\43\170\163\56\167\74\316\205\315\240\65\300\63"
+  "\277\335\271\251\214\240\54\330\33\65\170\252\230\133\326\326\237\300\43\370\66\255\152\225\167\257\347\35\242\215\352\134"
+  "\314\355\62\336\232\335\156\74\275\165\253\323\64\314\27\217\325\324\145\271\61\233\234\220\376\356\107\143\272\70\133\342"
+  "\272\301\175\365\371\336\234\35\316\234\175\116\314\5\127\255\331\364\156\362\257\271\70\160\266\120\63\323\341\150\337\102"
+  "\132\15\125\50\344\326\46\331\55\56\335\61\365\342\250\360\272\16\370\335\6\170\104\265\4\236\66\216\257\6\306\276"
+  "\266\16\255\150\146\360\251\375\144\257\204\122\357\366\116\267\321\16\272\5\120\170\301\234\327\111\175\270\2\57\245\52"
+  "\163\132\126\147\115\141\125\306\354\54\331\242\223\74\224\377\215\116\362\322\67\1\246\204\122\103\101\126\135\41\46\323"
+  "\355\120\273\136\334\262\100\35\331\135\375\171\113\120\273\365\42\353\124\160\65\321\14\330\134\12\241\211\132\45\45\25"
+  "\202\44\267\220\226\46\73\225\242\360\262\46\271\74\104\346\346\165\304\252\66\327\301\175\215\64\120\226\361\40\322\301"
+  "\344\77\122\262\344\340\136\157\136\311\324\366\37\213\165\105\331\143\151\250\361\374\60\366\322\60\140\347\177\157\27\70"
+  "\207\42\46\64\143\57\353\142\144\367\324\61\115\327\260\174\265\202\47\233\306\112\346\165\174\214\177\254\113\65\46\104"
+  "\374\250\160\106\171\223\204\363\343\251\51\111\161\75\231\33\217\342\20\222\163\60\137\50\277\265\204\232\54\334\227\147"
+  "\301\341\256\216\267\272\46\137\221\224\364\44\216\250\37\31\43\256\232\131\32\137\204\1\51\105\24\141\3\134\12\20"
+  "\356\40\361\267\361\356\47\314\23\104\217\176\362\212\145\123\175\235\206\70\365\361\40\312\302\50\341\134\311\213\37\314"
+  "\120\4\354\305\213\23\24\17\120\30\245\101\174\354\5\373\36\366\42\57\14\333\260\373\1\154\167\132\251\27\163\341"
+  "\7\6\243\255\152\146\204\306\354\77\112\110\354\371\361\321\361\177\33\204\20\101\173\11\151\20\60\155\55\355\43\157"
+  "\300\31\220\43\34\61\131\100\10\24\226\34\143\62\310\275\314\47\105\374\366\276\27\32\306\21\133\253\340\224\326\125"
+  "\331\267\316\124\273\363\316\24\65\252\361\106\123\233\126\25\172\333\217\66\45\120\237\234\242\156\2\202\334\44\370\163"
+  "\23\262\12\43\322\51\266\105\125\277\13\310\113\77\202\215\345\360\255\244\375\315\364\104\323\73\203\236\167\202\235\272"
+  "\15\172\131\324\120\264\164\204\161\156\142\150\12\373\233\324\311\14\146\352\135\64\73\330\120\275\66\332\241\107\306\112"
+  "\44\242\41\371\142\52\276\230\212\57\246\342\213\251\370\47\151\52\126\26\42\260\125\256\60\344\320\64\151\275\140\3"
+  "\264\142\26\326\112\361\306\13\157\131\45\37\272\30\132\171\105\307\170\206\137\237\305\262\375\66\14\323\153\325\271\74"
+  "\147\132\5\306\71\46\175\217\251\25\264\74\72\172\114\351\241\304\143\272\5\123\53\74\235\132\301\5\301\247\375\260"
+  "\217\175\22\144\76\312\216\207\173\257\300\21\215\210\66\63\272\302\257\140\177\1\156\366\377\342\74\67\54\363\363\50"
+  "\305\114\6\304\171\300\347\116\363\20\43\323\70\216\3\260\101\124\247\11\145\253\131\43\75\150\70\252\76\217\247\325"
+  "\347\324\130\374\115\320\223\126\213\276\132\161\162\44\362\226\235\136\352\347\362\125\134\105\261\71\66\327\137\324\140\141"
+  "\246\113\373\236\117\343\112\72\372\47\7\255\111\261\337\74\31\367\33\323\22\350\266\300\246\327\204\202\52\61\255\121"
+  "\235\174\5\330\17\127\15\152\134\354\27\331\240\120\152\112\134\100\340\20\175\133\77\224\76\216\41\212\257\303\210\204"
+  "\125\201\327\40\352\11\226\214\327\0\151\167\153\224\213\61\32\370\144\340\41\37\357\100\355\206\324\277\306\236\107\160"
+  "\305\137\166\334\40\102\253\305\54\277\12\162\14\61\102\30\373\225\74\326\140\276\52\356\176\103\217\106\161\4\251\1"
+  "\256\314\146\65\236\220\337\377\140\47\262\23\144\346\32\216\64\360\374\341\217\247\205\207\77\116\116\15\111\346\244\241"
+  "\125\151\341\265\177\126\245\250\253\223\170\323\122\211\244\202\274\141\62\376\376\364\153\311\337\156\57\347\154\343\57\144"
+  "\263\174\105\167\137\63\205\300\112\355\253\254\245\133\73\300\26\127\342\341\10\72\342\216\62\341\43\312\244\246\222\12"
+  "\322\370\273\167\65\360\256\364\45\213\24\333\135\161\103\214\11\322\12\10\201\46\63\352\245\121\204\120\350\307\51\223"
+  "\251\361\66\307\154\366\301\103\310\110\221\302\261\242\136\111\362\246\265\204\14\307\321\206\5\256\254\6\47\330\66\141"
+  "\22\75\300\357\166\324\142\255\336\143\224\33\65\370\357\22\121\361\316\43\52\322\66\234\206\134\271\226\153\110\115\206"
+  "\377\364\4\301\32\53\327\73\235\172\23\335\61\272\333\324\353\371\165\244\306\251\153\56\74\166\2\5\20\20\262\176"
+  "\15\173\246\201\40\273\30\21\14\52\52\142\355\12\24\134\242\1\153\175\6\273\330\311\43\167\271\5\266\325\105\264"
+  "\42\223\35\151\220\301\253\366\202\353\43\256\315\36\15\354\377\267\151\331\331\201\66\360\2\34\147\135\17\51\3\140"
+  "\215\322\112\256\221\154\260\331\75\340\127\264\332\145\102\147\53\41\106\147\230\257\252\15\163\41\16\147\50\304\341\14"
+  "\251\20\325\43\274\377\243\360\376\217\136\75\63\342\161\272\57\302\13\243\333\241\334\362\45\216\25\215\114\325\170\213"
+  "\66\111\323\15\12\177\333\145\267\114\231\357\226\270\133\7\175\5\120\115\305\272\265\313\335\127\75\13\150\30\141\77"
+  "\246\21\251\145\1\375\114\14\250\214\174\333\60\241\356\273\151\146\104\155\160\343\270\252\133\210\356\247\146\143\125\101"
+  "\154\230\175\203\124\111\116\213\361\131\230\123\353\313\273\272\316\125\172\343\125\155\217\50\250\61\324\122\325\243\331\274"
+  "\124\252\337\110\105\65\312\211\165\335\147\326\325\115\115\314\162\326\272\305\266\146\30\110\127\367\166\127\355\361\352\46"
+  "\302\136\317\252\333\324\315\320\321\244\333\212\343\340\11\215\272\306\16\214\365\151\315\275\247\56\46\143\34\240\20\141"
+  "\56\60\362\304\46\343\306\144\323\212\321\332\146\3\72\235\45\70\125\356\163\165\175\335\127\146\167\366\225\25\303\373"
+  "\167\164\135\254\26\15\214\141\373\257\205\273\225\77\51\357\125\42\343\115\216\52\264\0\353\306\123\64\351\346\107\340"
+  "\0\342\100\161\261\350\76\117\102\235\47\52\107\237\352\132\164\323\244\160\370\74\322\312\64\51\162\236\246\344\57\247"
+  "\130\141\151\342\77\102\322\43\337\162\110\340\277\365\300\25\52\160\203\362\22\163\14\341\72\135\352\43\0\221\317\1"
+  "\131\301\215\240\227\356\140\1\304\156\277\264\106\241\360\6\150\5\51\146\55\4\114\330\305\132\146\214\127\131\55\234"
+  "\67\2\373\140\126\313\274\361\242\103\141\200\317\40\160\273\140\226\313\71\11\277\323\261\357\76\112\264\353\302\122\234"
+  "\264\341\172\21\67\330\375\140\326\325\225\227\355\212\365\145\307\113\270\33\377\126\145\127\135\335\144\356\56\351\112\4"
+  "\351\124\32\225\241\130\175\310\261\336\331\273\337\113\325\240\12\203\235\7\260\340\135\145\321\312\203\25\273\260\262\52"
+  "\111\104\305\334\122\150\101\40\307\47\36\352\113\67\271\21\315\334\56\50\137\357\142\156\164\73\74\361\275\214\142\4"
+  "\307\33\273\67\172\247\143\310\100\322\306\205\263\132\77\60\240\316\20\312\323\102\266\143\143\226\232\75\54\161\210\175"
+  "\2\115\162\174\210\222\170\215\345\135\176\316\34\373\45\216\117\317\264\212\101\336\70\337\132\56\235\132\146\2\71\0"
+  "\350\336\61\0\350\115\44\364\266\353\273\113\100\140\165\175\221\251\10\171\171\5\206\222\163\220\237\200\241\114\211\316"
+  "\337\74\103\351\25\266\265\331\37\341\346\346\76\233\117\262\361\315\142\64\121\272\43\354\36\327\325\307\321\172\167\253"
+  "\256\365\126\20\202\253\347\325\307\147\41\364\372\115\304\10\215\352\335\140\253\212\224\123\57\302\101\34\300\3\171\125"
+  "\227\1\65\316\345\300\213\107\250\51\123\35\343\146\264\132\76\253\174\106\167\77\50\217\222\140\326\15\267\247\51\204"
+  "\42\103\142\255\215\362\126\12\141\366\137\234\342\0\17\374\131\21\27\270\167\143\105\105\16\36\314\64\237\10\320\327"
+  "\366\206\151\220\171\176\330\307\171\26\26\365\4\313\273\141\162\35\372\176\350\141\57\324\370\236\252\241\312\374\54\210"
+  "\22\322\217\323\254\317\16\257\301\366\354\171\355\43\37\205\1\362\170\367\123\133\52\236\101\354\45\176\222\346\3\77"
+  "\114\217\27\45\176\24\7\61\206\146\325\150\243\335\124\41\166\264\156\301\154\364\254\302\44\347\354\114\343\235\263\163"
+  "\327\354\355\274\321\227\214\165\231\57\304\267\300\262\166\160\333\315\332\144\227\172\206\115\310\142\335\132\233\256\260\32"
+  "\341\336\51\13\216\166\273\111\247\13\310\166\243\335\136\22\301\373\154\143\114\355\41\354\76\217\253\313\366\323\306\366"
+  "\123\63\324\243\335\215\111\33\56\101\231\0\365\167\133\15\305\66\11\242\216\227\110\261\217\303\260\160\20\75\354\64"
+  "\330\213\312\237\30\50\322\367\173\126\37\373\161\41\26\202\355\106\103\43\204\375\50\364\64\1\23\112\240\110\230\321"
+  "\74\102\161\352\223\244\250\320\116\166\33\315\166\323\242\224\365\25\2\241\302\131\26\147\375\101\237\366\161\112\367\145"
+  "\120\310\65\212\102\77\44\145\30\107\14\205\52\312\223\54\356\147\121\344\105\203\42\331\132\270\163\25\301\236\37\63"
+  "\332\55\12\0\342\267\127\150\135\263\265\51\74\225\120\204\374\10\143\55\63\265\144\324\65\155\30\33\223\250\7\354"
+  "\200\46\26\133\203\245\272\303\75\215\12\217\204\170\224\306\1\60\347\34\121\334\10\24\351\4\61\361\25\226\270\307"
+  "\25\34\24\336\20\146\260\164\65\111\220\121\277\302\355\343\252\25\337\4\43\301\74\256\214\36\75\233\6\226\165\155"
+  "\327\245\300\116\244\203\367\346\315\21\163\15\237\376\203\122\263\114\136\361\14\375\142\254\271\61\132\71\272\323\47\312"
+  "\360\201\67\346\60\137\137\103\122\4\353\236\345\200\336\222\257\370\150\5\360\4\67\35\331\324\205\44\153\344\120\163"
+  "\217\104\264\133\355\344\62\244\241\144\276\323\311\122\135\46\63\325\316\260\266\337\136\127\270\123\75\37\305\355\256\243"
+  "\27\274\4\370\136\12\271\25\122\125\156\272\105\226\241\10\71\304\356\325\312\103\247\11\26\61\310\147\153\150\211\220"
+  "\43\212\340\274\357\123\112\311\0\107\207\255\57\214\174\57\146\107\35\317\210\125\305\46\247\124\211\223\200\4\114\52"
+  "\120\77\105\114\345\367\375\155\32\52\24\340\0\207\174\25\153\300\61\173\341\132\243\114\141\167\251\231\274\306\34\245"
+  "\323\320\364\7\110\344\55\170\250\375\31\340\160\50\141\4\324\207\340\314\127\257\23\212\132\350\304\17\132\350\44\44"
+  "\55\164\22\301\74\71\137\323\172\270\201\317\6\267\201\127\257\15\274\322\66\10\66\150\203\140\243\66\10\66\16\336"
+  "\4\231\30\257\20\114\162\323\170\3\261\120\13\151\123\177\13\153\55\307\147\150\272\354\265\43\223\224\162\166\16\137"
+  "\72\355\362\57\152\163\344\112\177\346\122\174\376\322\262\332\61\132\303\234\367\237\155\11\244\344\24\177\346\134\247\104"
+  "\231\101\124\360\331\125\302\163\253\273\350\252\355\246\367\142\257\136\152\172\373\31\120\146\104\130\131\335\231\330\166\307"
+  "\140\276\50\61\250\324\332\30\324\27\307\162\250\247\55\226\275\60\130\41\140\42\311\122\227\371\271\321\131\341\105\263"
+  "\272\222\175\345\365\313\216\57\164\121\104\320\343\342\322\256\175\152\144\324\302\332\125\142\335\2\226\172\46\153\357\142"
+  "\361\5\150\131\232\147\17\67\263\321\224\10\346\245\255\305\346\140\136\252\74\146\250\372\74\21\136\147\53\226\126\15"
+  "\120\307\73\260\103\171\324\215\120\56\125\260\32\335\75\13\317\63\341\131\310\352\220\46\363\371\272\332\64\161\251\317"
+  "\52\164\367\120\175\174\104\102\137\102\76\10\301\234\226\13\26\263\374\131\174\56\362\104\110\115\102\136\213\376\254\123"
+  "\35\45\27\33\106\130\154\40\142\203\47\66\120\261\301\27\33\2\261\41\24\33\42\261\41\226\0\103\122\213\4\53"
+  "\226\200\305\22\264\130\2\27\113\360\142\11\140\54\101\214\45\220\261\4\63\221\140\46\62\176\45\230\211\4\63\221"
+  "\140\46\22\314\104\202\231\110\60\223\75\314\45\343\334\216\247\375\103\200\311\174\371\315\142\326\21\145\123\177\327\244"
+  "\173\225\367\177\107\222\132\262\373\152\41\176\5\30\70\337\65\11\152\346\150\62\132\336\334\111\11\175\13\361\40\26"
+  "\346\62\246\263\54\355\104\12\105\125\256\77\176\57\125\357\232\111\65\277\127\132\75\102\125\375\113\166\223\104\332\122"
+  "\220\12\357\317\343\304\330\246\52\107\142\337\75\203\15\143\206\230\325\273\147\335\46\40\1\113\244\150\271\273\147\220"
+  "\375\226\137\27\5\236\36\221\246\137\276\305\255\316\232\214\372\273\173\123\242\251\207\262\241\317\132\356\257\72\244\143"
+  "\103\332\76\64\173\72\273\352\340\216\265\234\326\203\42\30\245\264\346\156\65\207\376\374\146\224\37\206\335\1\341\111"
+  "\335\346\22\47\106\110\63\47\145\131\55\163\332\127\376\142\102\236\322\35\204\324\144\243\264\203\225\360\140\256\26\344"
+  "\300\362\145\172\63\145\307\35\246\147\330\200\152\42\10\324\347\52\336\350\273\130\116\347\231\372\270\313\136\123\55\330"
+  "\310\132\272\327\104\222\333\227\7\363\351\114\75\157\3\42\214\375\336\125\373\355\317\17\44\134\116\203\377\275\112\221"
+  "\276\23\133\120\73\72\70\226\64\361\205\137\201\42\250\74\105\126\230\356\32\230\253\363\27\156\102\141\307\276\16\53"
+  "\320\204\242\312\24\142\231\321\137\254\7\363\273\326\323\141\327\22\61\167\53\173\235\21\45\324\362\156\327\64\51\265"
+  "\345\350\265\303\151\111\326\161\347\344\34\25\162\134\304\377\36\1\244\72\105\47\22\353\104\107\151\20\361\26\234\126"
+  "\274\25\110\243\34\242\370\337\375\216\106\162\360\153\260\341\130\225\351\210\323\207\331\323\62\343\371\14\143\260\374\72"
+  "\216\263\261\152\32\316\353\267\353\263\365\124\366\74\2\330\11\12\276\203\37\35\236\144\121\265\107\332\36\207\73\22"
+  "\62\372\377\220\62\367\262\177\35\7\210\6\224\106\126\77\163\176\332\242\57\203\325\376\52\13\313\174\326\261\121\46"
+  "\5\363\214\274\253\3\374\220\266\30\300\101\30\206\4\253\374\365\363\27\243\141\123\347\324\241\344\121\332\234\42\255"
+  "\207\232\366\67\32\343\25\363\206\123\107\310\133\124\253\264\107\220\252\132\205\170\275\252\362\200\73\126\313\355\43\322"
+  "\25\202\132\260\266\376\4\342\166\54\320\145\351\74\17\215\371\20\270\172\237\341\275\232\373\140\117\4\12\50\163\46"
+  "\212\346\200\224\46\274\155\135\233\172\254\104\361\304\212\263\211\101\146\30\135\56\114\233\302\120\263\62\220\202\305\146"
+  "\261\44\155\5\46\316\153\162\272\61\235\341\37\221\162\320\343\325\224\151\203\234\100\365\77\365\2\236\26\47\274\34"
+  "\127\34\107\150\7\154\40\122\212\31\7\124\216\325\355\116\342\374\225\351\306\153\104\67\103\255\267\233\201\231\364\325"
+  "\221\337\22\112\352\114\172\123\57\267\313\255\46\373\52\321\15\15\160\316\33\326\221\145\23\227\35\167\142\223\260\345"
+  "\365\113\105\315\244\156\26\70\200\351\205\243\217\261\111\337\245\125\175\327\357\264\256\135\102\344\215\372\250\161\304\223"
+  "\23\267\334\71\147\363\305\372\25\72\225\236\55\31\227\366\332\63\314\206\140\20\245\122\112\327\123\115\41\320\114\301"
+  "\157\157\12\245\356\350\237\376\44\276\347\250\355\200\225\7\171\43\165\120\207\366\154\125\65\342\341\252\101\14\207\366"
+  "\41\144\351\316\30\170\231\364\307\131\371\175\331\347\161\234\55\344\141\347\365\324\17\171\354\175\23\164\267\211\274\50"
+  "\12\120\250\166\16\322\223\116\271\232\25\64\104\257\210\6\171\354\121\344\206\6\212\143\352\41\257\71\32\216\17\326"
+  "\55\221\264\32\155\260\261\237\106\300\62\137\353\274\324\50\130\12\162\360\64\302\17\320\73\66\165\112\301\127\321\157"
+  "\65\372\357\257\363\120\35\362\326\351\32\261\323\275\306\255\351\276\17\125\304\36\301\166\263\364\211\225\17\165\165\361"
+  "\73\356\102\10\67\331\173\264\250\255\356\75\61\317\246\374\3\161\261\152\126\151\145\217\143\257\3\113\161\277\135\154"
+  "\102\100\262\362\336\45\247\123\73\147\17\171\236\12\372\362\252\364\305\233\324\211\274\215\337\303\223\150\52\224\210\173"
+  "\171\41\367\330\333\16\130\171\20\40\13\134\30\124\253\301\354\326\314\7\37\6\224\163\255\254\204\211\173\253\72\14"
+  "\11\73\347\270\114\253\163\355\23\167\134\357\325\237\135\0\151\377\326\335\162\35\265\307\170\174\276\273\137\22\265\166"
+  "\371\273\7\173\357\346\201\56\327\277\147\276\376\365\320\351\357\177\367\4\263\25\167\225\207\370\65\257\200\61\152\162"
+  "\7\254\20\162\255\37\75\367\362\173\73\140\345\101\273\115\30\5\271\174\111\134\14\123\275\42\126\50\254\342\53\355"
+  "\352\256\265\165\321\273\215\365\154\314\371\15\352\235\355\366\342\347\240\320\25\142\316\43\265\316\206\247\122\151\162\373"
+  "\162\327\102\236\352\362\257\46\26\347\107\244\125\150\307\343\325\235\75\222\365\226\140\365\36\246\63\263\267\171\45\250"
+  "\276\252\226\215\315\237\333\215\277\43\221\126\144\44\376\374\356\374\335\364\145\67\41\242\350\100\366\330\155\171\11\264"
+  "\256\112\65\320\4\64\374\66\1\127\347\45\122\7\132\207\62\100\15\155\70\62\117\355\167\5\332\261\173\102\361\207"
+  "\56\317\263\332\45\20\310\46\342\125\357\137\74\377\125\225\45\12\320\315\117\154\222\321\237\220\52\102\104\257\270\251"
+  "\45\120\55\121\256\11\154\256\350\326\376\351\15\104\36\177\37\121\175\20\250\47\164\45\343\240\55\62\16\253\200\124"
+  "\57\70\50\352\64\77\230\132\313\220\355\246\24\333\15\75\273\70\27\153\261\14\143\37\33\75\346\370\55\356\60\200"
+  "\266\236\132\306\131\364\5\264\322\252\305\224\142\35\177\12\266\216\177\377\141\112\154\326\255\223\35\241\101\342\311\152"
+  "\212\72\373\51\131\201\334\326\55\204\36\157\335\255\74\120\4\20\374\204\102\34\155\255\44\351\274\55\370\115\316\320"
+  "\136\164\6\11\311\337\164\125\37\252\202\211\12\21\36\325\120\13\52\210\55\341\133\171\317\77\4\347\35\57\143\331"
+  "\133\345\227\145\157\345\10\307\121\267\53\355\265\40\14\367\40\371\216\2\237\322\226\4\76\25\60\27\70\150\16\140"
+  "\202\36\265\54\15\154\22\40\70\75\245\322\212\317\177\345\101\136\313\265\314\212\12\20\207\166\273\202\61\173\332\36"
+  "\5\252\123\303\213\224\47\14\30\41\126\316\265\102\366\174\124\310\236\321\152\362\300\163\205\207\221\53\17\304\55\361"
+  "\200\137\335\235\175\305\356\374\374\131\360\300\63\27\172\162\206\13\117\132\331\370\370\7\305\132\52\170\40\74\1\17"
+  "\74\353\171\340\271\56\17\50\226\135\316\235\246\377\344\331\344\167\40\360\200\375\232\227\347\0\237\270\371\17\232\170"
+  "\240\172\263\351\323\367\300\3\364\364\126\177\237\227\215\325\7\117\303\3\252\371\53\325\265\350\63\341\17\151\217\20"
+  "\324\61\337\365\70\353\73\35\147\15\136\261\176\125\363\363\243\116\353\64\174\216\230\243\67\311\147\212\2\117\47\6"
+  "\264\302\34\212\315\177\337\166\76\304\236\143\361\17\210\26\163\141\125\352\223\71\355\136\257\60\337\112\70\257\342\214"
+  "\134\235\245\345\50\352\237\341\50\352\363\247\317\352\103\125\250\4\256\172\253\157\327\133\61\110\272\5\125\275\65\300"
+  "\27\351\326\242\164\303\257\50\335\124\356\212\373\266\167\47\335\360\73\223\156\244\143\231\245\55\141\301\31\216\156\176"
+  "\345\264\306\77\210\102\245\15\53\27\130\64\6\304\52\32\11\350\110\37\124\217\63\1\175\7\146\255\200\236\236\56"
+  "\2\136\215\257\76\170\265\116\43\166\63\0\321\47\214\262\235\262\341\262\301\355\344\245\160\62\326\203\24\265\4\22"
+  "\16\314\60\325\66\336\53\316\172\212\125\10\32\255\302\376\304\170\262\25\11\33\255\110\163\360\154\253\23\165\0\66"
+  "\127\273\364\347\354\151\262\50\24\343\121\165\105\132\156\25\151\21\245\4\207\332\34\251\173\177\13\115\212\124\241\2"
+  "\217\45\341\351\306\130\123\147\151\254\307\223\117\252\317\31\162\111\155\72\131\231\363\242\272\326\357\51\152\32\127\133"
+  "\56\231\112\133\314\124\32\333\163\227\66\314\124\332\176\76\121\217\234\42\235\350\73\250\6\25\22\102\75\274\257\21"
+  "\136\365\316\0\334\13\164\14\271\300\117\261\267\250\303\61\152\205\170\30\374\141\301\2\31\134\213\310\213\111\344\207"
+  "\4\122\125\310\120\213\350\26\122\213\110\56\34\124\161\344\273\366\103\24\306\301\261\360\64\64\112\124\71\55\22\343"
+  "\60\4\44\272\137\327\115\172\325\247\1\336\127\47\232\165\275\322\163\54\270\106\154\120\204\174\54\326\327\254\344\237"
+  "\77\1\375\121\173\112\245\65\360\4\41\24\133\70\351\174\301\351\101\166\243\357\323\61\1\107\67\121\315\132\227\205"
+  "\301\2\12\223\111\121\102\62\344\61\152\365\146\335\140\137\244\225\20\22\4\304\317\272\344\254\13\37\234\172\341\117"
+  "\63\137\336\317\115\123\72\304\105\326\51\310\250\231\334\321\346\145\73\235\334\11\117\41\167\334\55\140\156\344\27\275"
+  "\61\271\3\234\357\211\344\16\204\152\326\272\20\325\166\345\316\251\27\136\21\113\367\272\202\7\272\362\222\340\351\342"
+  "\26\264\54\230\266\25\123\106\306\114\102\100\164\332\163\324\345\224\252\322\124\127\200\372\271\207\202\101\32\247\121\344"
+  "\35\222\162\5\136\20\340\70\14\211\256\176\270\123\126\57\336\315\127\235\375\260\4\157\2\214\216\232\130\53\306\344"
+  "\223\106\33\203\76\225\243\272\216\227\162\70\107\241\246\55\353\150\260\353\170\304\230\244\136\345\326\276\43\130\301\175"
+  "\174\122\330\157\156\206\326\1\117\231\162\156\267\213\332\275\346\41\47\103\371\150\70\327\27\164\152\240\307\52\152\234"
+  "\233\123\346\335\1\200\47\47\0\336\121\142\237\301\224\260\255\171\76\272\35\132\103\325\17\57\151\321\374\44\375\231"
+  "\206\306\42\163\74\276\365\6\134\303\211\167\256\256\267\5\25\12\100\135\3\42\24\226\166\332\160\226\135\216\333\262"
+  "\242\122\336\322\136\0\317\116\316\200\312\276\153\110\250\342\205\175\316\307\76\64\76\41\373\354\351\162\307\76\156\164"
+  "\171\76\366\351\107\136\234\20\237\241\61\116\331\326\217\121\311\346\321\65\15\43\112\302\40\310\272\36\171\273\374\103"
+  "\117\261\167\332\363\245\71\36\115\174\73\224\256\107\223\226\4\104\275\162\356\240\320\17\350\214\116\175\313\252\360\310"
+  "\137\3\312\215\73\200\146\260\217\117\64\342\250\15\203\322\344\114\307\104\202\151\100\75\37\205\4\122\251\167\15\361"
+  "\152\155\354\63\276\2\126\126\5\321\323\141\0\0\373\275\302\55\211\375\302\114\267\345\216\247\57\365\16\1\274\215"
+  "\200\6\46\167\233\14\151\106\60\226\256\103\346\154\354\112\105\303\101\35\221\166\250\75\42\204\157\236\4\323\305\241"
+  "\300\255\257\54\160\353\132\32\270\325\2\166\52\147\61\123\356\154\150\375\272\166\134\73\221\103\312\215\132\167\220\46"
+  "\263\136\343\251\324\266\5\103\263\367\50\224\273\315\331\152\325\1\152\312\31\35\6\155\136\102\246\4\75\40\171\351"
+  "\111\71\352\127\225\360\135\76\51\26\50\5\74\240\60\150\173\244\321\106\326\61\267\112\246\173\364\314\17\350\250\70"
+  "\131\371\162\341\56\63\272\326\32\201\155\2\220\210\31\155\324\125\250\115\345\106\332\322\75\25\276\311\157\105\367\44"
+  "\336\173\320\75\145\225\144\322\272\143\336\142\64\121\372\344\161\141\177\106\47\74\213\47\234\336\255\255\175\17\52\34"
+  "\234\302\203\252\236\257\372\346\165\275\257\106\257\342\175\265\202\245\365\123\11\257\75\31\266\167\112\153\170\234\2\34"
+  "\164\332\166\121\120\154\26\212\314\145\146\61\277\57\36\241\52\131\133\335\326\253\12\152\125\145\66\135\47\111\364\163"
+  "\314\162\102\72\105\177\305\10\325\315\220\200\335\255\235\103\345\43\215\120\306\247\242\64\265\336\170\242\371\250\340\117"
+  "\247\213\246\360\323\267\270\36\374\336\333\140\156\376\133\130\233\226\346\202\73\226\134\210\37\46\111\373\32\301\176\22"
+  "\27\215\340\242\21\234\110\43\70\201\134\273\150\0\27\15\340\164\73\246\367\216\167\114\372\216\166\114\377\235\151\232"
+  "\257\243\1\54\223\213\115\340\242\1\234\311\46\240\347\237\145\362\223\261\11\350\157\205\333\123\14\316\57\24\141\245"
+  "\162\65\1\40\272\113\312\266\51\105\47\4\23\147\313\350\322\30\236\74\253\76\76\126\37\123\143\360\362\242\372\50"
+  "\206\27\213\2\166\274\342\304\351\273\210\0\15\142\217\320\10\316\243\265\56\355\127\220\270\36\21\24\5\343\217\127"
+  "\142\31\101\247\244\26\246\170\45\112\6\70\2\271\245\133\72\334\373\234\123\77\105\341\254\353\357\174\114\61\361\210"
+  "\107\263\56\16\165\256\356\373\333\26\210\353\4\124\122\2\235\112\6\243\347\132\102\236\255\32\16\50\15\140\301\255"
+  "\212\317\51\365\42\34\304\201\366\363\52\156\303\214\172\151\24\41\24\372\161\72\373\20\307\101\271\134\331\7\17\41"
+  "\105\221\212\225\62\162\5\130\354\242\54\121\263\64\122\222\152\237\201\234\100\127\32\232\322\106\211\370\374\317\254\353"
+  "\155\203\74\160\260\375\11\25\123\27\173\351\226\301\46\203\0\23\344\145\375\40\17\7\263\56\51\272\351\242\153\217"
+  "\370\176\340\107\70\6\364\123\262\114\212\175\37\145\121\104\51\7\15\101\230\140\342\37\135\53\255\320\104\204\104\175"
+  "\77\210\242\334\353\63\106\331\101\203\50\102\154\226\36\365\241\340\144\171\306\10\2\341\76\211\242\131\341\302\135\302"
+  "\303\226\64\214\61\353\47\216\51\260\47\342\15\62\214\6\371\40\17\121\314\172\52\101\362\256\151\30\63\176\106\105"
+  "\251\12\337\306\274\347\154\347\44\354\254\101\51\27\345\342\170\136\102\102\234\106\11\31\320\376\354\103\211\323\56\271"
+  "\246\310\363\142\32\143\40\102\21\111\62\306\251\176\34\45\151\264\353\245\360\27\106\61\365\303\0\12\113\200\202\40"
+  "\305\375\150\200\260\37\357\102\234\30\241\60\302\41\221\27\207\4\10\214\327\217\122\277\217\111\26\223\210\314\272\164"
+  "\107\46\141\210\230\14\362\121\160\256\245\345\313\34\111\11\356\245\72\73\222\214\66\271\23\257\254\15\57\256\133\117"
+  "\73\345\202\316\21\151\47\157\201\245\74\175\251\27\64\167\221\314\27\311\174\221\314\27\311\134\205\133\125\357\354\161"
+  "\276\24\277\136\300\316\73\24\61\326\206\34\275\352\154\13\165\217\71\132\62\335\322\210\142\111\27\326\206\27\247\345"
+  "\250\171\226\262\304\336\54\265\372\371\102\275\145\330\167\253\356\301\273\72\120\172\127\127\16\246\116\336\326\320\70\51"
+  "\53\216\25\147\102\303\352\360\53\242\40\254\264\31\135\316\33\323\230\346\30\76\157\223\214\334\141\113\215\230\327\220"
+  "\343\314\312\244\173\265\44\214\174\57\146\247\344\206\134\372\2\215\257\177\254\17\31\214\64\140\214\52\233\76\352\45"
+  "\307\132\2\214\52\113\351\246\314\156\304\154\352\314\141\266\132\316\215\26\317\205\321\304\71\310\57\106\315\237\216\121"
+  "\323\201\53\34\56\327\124\226\100\243\106\201\267\32\71\246\114\23\44\201\257\352\307\341\52\346\124\106\115\130\302\276"
+  "\146\66\115\114\142\102\51\167\75\52\336\341\325\321\314\152\33\205\25\347\330\115\53\347\330\115\113\347\330\115\53\347"
+  "\330\115\133\347\330\115\153\347\330\315\345\34\153\132\34\367\163\354\246\215\163\354\246\245\163\354\346\47\141\141\234\327"
+  "\26\130\155\335\222\231\244\334\34\254\170\363\277\133\56\271\34\142\270\232\330\102\241\267\122\120\343\344\105\250\137\204"
+  "\372\105\250\377\104\205\372\246\221\161\22\274\45\224\202\146\156\67\315\264\140\304\163\63\147\152\16\37\55\231\63\137"
+  "\254\153\144\332\132\232\156\22\220\70\175\267\115\302\116\47\345\313\222\131\164\220\277\272\135\164\220\133\123\47\310\257"
+  "\14\362\332\246\121\356\123\127\333\350\145\103\276\154\310\227\15\371\162\312\152\147\113\125\136\67\50\40\171\151\260\361"
+  "\311\222\323\274\363\31\154\173\212\60\12\273\105\335\71\70\102\264\212\143\341\231\124\237\5\3\274\255\264\320\150\240"
+  "\51\65\364\116\354\344\114\133\212\142\246\56\321\23\333\311\41\31\273\24\301\2\246\214\312\242\107\173\335\210\4\271"
+  "\30\267\52\151\363\41\325\226\302\44\0\115\233\254\117\237\274\262\333\7\314\306\137\207\13\0\41\357\164\301\161\303"
+  "\221\246\72\133\45\376\100\361\341\170\12\371\120\67\215\75\276\152\103\124\275\254\153\0\235\112\167\167\312\70\37\142"
+  "\57\42\76\211\352\272\100\63\355\211\262\243\314\373\161\201\66\247\377\337\346\363\262\171\113\237\43\51\377\102\311\176"
+  "\312\133\274\50\212\43\77\250\271\302\5\220\141\24\351\11\304\224\107\157\320\140\103\137\71\325\16\120\54\76\50\107"
+  "\34\140\170\313\331\151\245\223\241\72\272\261\30\227\301\363\152\332\17\154\136\206\320\0\165\271\260\220\235\356\20\200"
+  "\132\110\75\364\104\252\151\125\155\7\240\205\227\361\1\36\303\112\244\165\51\306\263\62\120\127\67\223\256\331\16\143"
+  "\137\337\132\367\333\132\53\215\362\24\4\111\251\275\121\356\211\177\166\13\113\174\161\350\4\7\155\364\342\221\66\172"
+  "\21\212\312\326\354\45\240\155\364\22\311\331\371\336\220\251\141\201\33\315\255\15\4\221\126\320\114\133\41\142\277\25"
+  "\42\16\311\253\55\71\277\264\104\332\147\6\165\22\123\332\303\111\144\42\332\215\355\152\55\237\14\54\307\1\323\144"
+  "\232\344\73\155\165\166\372\203\310\251\300\267\152\63\26\147\313\115\275\353\357\212\121\106\277\135\355\17\150\372\132\160"
+  "\307\205\7\130\207\252\65\256\327\325\32\327\256\376\227\367\125\353\316\203\331\30\64\134\233\175\50\107\153\265\117\345"
+  "\341\131\370\373\315\315\262\70\251\124\32\276\304\250\332\266\31\326\61\70\161\232\4\353\364\64\205\117\44\126\341\107"
+  "\202\173\114\272\333\262\26\352\174\354\153\7\214\60\64\237\6\51\153\5\122\370\301\264\170\221\76\34\256\353\341\145"
+  "\155\317\134\77\136\331\222\354\162\157\360\251\245\45\337\124\17\153\252\330\110\157\252\315\173\117\315\314\173\322\134\307"
+  "\153\353\314\326\347\234\231\203\311\157\335\324\344\167\26\117\343\265\356\366\370\140\271\267\100\275\66\343\171\141\315\144"
+  "\142\102\201\147\256\372\100\224\151\121\246\122\45\244\7\47\102\3\243\261\365\334\161\17\306\374\160\312\224\370\232\174"
+  "\153\153\123\356\262\346\76\337\207\151\12\107\160\125\137\135\173\147\102\336\56\250\254\3\57\224\31\312\235\241\300\22"
+  "\70\347\354\41\71\134\333\225\256\105\66\316\322\145\35\217\166\323\305\207\206\332\35\76\336\121\150\120\241\327\175\351"
+  "\332\335\143\134\171\212\52\117\241\225\264\303\116\361\115\321\113\331\361\141\254\222\36\302\116\375\160\45\221\266\42\0"
+  "\241\36\256\255\255\275\305\52\310\310\40\16\323\60\367\74\202\7\344\160\223\356\371\1\216\51\215\265\104\217\224\220"
+  "\251\72\353\332\173\333\243\157\277\253\356\327\254\52\234\160\125\72\341\252\170\302\125\371\204\355\2\12\27\22\12\27"
+  "\42\12\27\62\12\227\102\252\122\304\203\164\232\104\251\224\135\170\12\74\251\373\350\352\73\151\121\364\341\166\145\237"
+  "\46\151\141\43\376\175\7\2\157\155\20\201\162\165\24\103\215\330\362\210\160\57\274\37\300\2\252\334\260\300\27\314"
+  "\251\355\204\156\274\265\26\247\321\15\24\175\100\313\375\66\111\313\250\232\337\332\156\147\77\355\15\240\111\213\125\225"
+  "\64\252\374\273\27\172\302\236\127\335\345\160\165\233\303\366\175\16\27\33\35\56\166\72\134\156\165\374\66\247\370\174"
+  "\243\226\21\221\256\156\325\231\212\242\156\206\216\343\103\152\225\361\275\211\325\124\273\207\303\361\361\360\263\332\353\173"
+  "\312\352\150\316\165\327\300\116\252\334\375\215\264\60\161\375\155\305\342\21\47\172\130\173\133\311\103\10\23\375\101\224"
+  "\165\253\225\273\154\61\61\45\260\101\347\264\3\327\161\345\226\200\65\124\336\31\266\231\140\162\150\166\34\273\173\223"
+  "\361\324\167\55\371\211\265\226\310\325\140\332\160\362\155\347\115\156\122\365\345\132\5\270\206\232\104\331\334\30\100\127"
+  "\240\220\260\115\50\250\355\12\344\261\37\114\240\1\147\151\330\307\271\227\46\151\310\76\144\234\203\160\174\360\5\12"
+  "\337\226\57\320\231\375\173\24\273\173\266\232\75\140\153\331\153\110\10\77\210\220\334\275\145\226\116\365\250\1\157\267"
+  "\340\313\42\112\155\203\347\257\204\5\73\364\247\202\30\350\253\154\136\366\210\370\236\117\143\7\371\361\46\150\334\161"
+  "\342\47\116\177\121\40\61\210\61\360\360\122\313\253\127\61\10\320\253\167\45\171\51\106\154\167\364\302\300\253\244\137"
+  "\177\252\345\340\133\143\107\73\153\242\304\75\171\30\250\310\344\143\64\264\147\27\222\22\47\32\337\206\220\151\215\335"
+  "\117\71\204\241\74\123\253\152\343\333\314\263\63\172\153\172\141\155\21\335\120\333\12\61\102\30\373\76\334\23\346\55"
+  "\51\55\115\63\112\152\143\207\54\311\155\174\104\260\17\303\371\113\35\165\337\6\73\124\7\172\161\313\162\347\232\200"
+  "\375\325\366\166\47\102\60\355\64\113\47\347\160\130\117\356\330\254\243\171\275\345\275\365\242\225\135\264\262\363\152\145"
+  "\165\347\164\2\215\215\213\372\34\115\162\160\105\254\146\112\227\340\326\167\7\114\166\50\71\342\275\71\47\273\273\226"
+  "\234\354\136\307\20\150\260\304\335\146\355\246\121\342\167\235\32\346\203\123\44\355\250\11\122\363\130\104\167\225\270\355"
+  "\362\72\316\373\275\213\112\271\152\75\357\126\375\323\207\55\313\150\223\240\271\327\336\152\132\70\165\64\265\202\2\277"
+  "\205\230\56\365\127\322\346\260\260\235\103\315\347\261\112\102\211\12\105\311\317\326\160\253\277\40\257\55\77\25\235\71"
+  "\157\46\200\240\4\175\40\102\45\134\301\26\224\220\146\243\361\325\127\154\5\246\363\345\325\27\305\323\27\137\303\224"
+  "\30\265\54\143\35\230\7\314\307\323\351\374\70\142\371\330\150\310\262\7\363\230\363\351\323\144\160\34\263\174\254\75"
+  "\246\252\246\142\321\241\31\204\345\274\370\375\0\102\371\330\150\332\145\17\346\61\47\131\62\357\257\31\73\36\307\75"
+  "\64\65\32\273\350\45\133\54\55\13\75\147\203\162\13\135\74\152\106\335\75\146\263\345\174\247\322\332\341\340\32\212"
+  "\357\164\113\123\16\153\6\164\74\250\0\132\76\232\1\235\324\201\162\242\315\130\306\332\372\226\314\62\333\167\216\100"
+  "\156\237\337\32\224\17\323\101\176\204\261\170\62\103\70\252\271\340\43\303\202\27\243\132\10\223\275\302\321\45\173\62"
+  "\103\271\6\363\6\44\302\240\30\317\2\137\322\137\160\360\261\247\106\314\312\276\267\154\1\323\331\172\61\272\345\250"
+  "\153\337\162\62\274\154\67\325\355\40\26\302\177\234\163\342\253\170\152\204\214\103\166\100\355\200\263\351\313\161\74\366"
+  "\160\116\332\230\115\137\54\242\152\172\313\11\252\351\155\233\233\30\353\316\72\70\106\225\341\61\152\31\200\235\221\115"
+  "\13\102\105\120\353\305\164\255\341\255\373\104\251\246\126\206\177\300\55\3\260\123\203\15\242\53\131\361\242\53\131\265"
+  "\105\236\74\74\213\175\242\63\135\340\224\371\204\271\166\351\160\5\66\42\53\205\10\303\200\15\143\243\11\217\261\321"
+  "\344\247\216\261\221\115\342\362\10\133\150\361\125\213\304\27\266\301\323\351\202\337\206\26\155\16\276\57\163\243\327\321"
+  "\23\156\346\354\241\315\301\227\266\334\201\111\5\357\111\313\210\117\254\230\117\52\250\117\132\306\175\142\105\176\122\301"
+  "\176\322\62\372\23\73\376\213\250\374\52\0\104\200\0\32\246\157\217\16\320\100\110\254\234\71\254\260\346\260\145\336"
+  "\34\132\231\163\130\341\316\141\313\354\71\264\362\347\260\302\240\303\226\71\124\32\377\353\177\370\377";
+
+/* lib/stat.wo (DEFLATEd, org. size 8940) */
+static unsigned char file_l_40[1119] =
+  "\355\131\313\222\333\52\20\335\347\53\50\227\26\366\342\116\131\117\313\256\312\267\250\144\11\71\252\350\25\100\231\344"
+  "\357\57\350\145\136\262\221\345\311\344\336\362\54\146\240\325\300\71\160\150\32\146\133\326\151\133\100\140\141\22\223\57"
+  "\0\154\363\262\251\21\1\233\4\221\15\330\340\306\332\200\355\245\250\317\161\1\54\152\73\121\13\330\226\55\1\271"
+  "\353\354\166\73\265\111\11\313\32\375\246\255\372\102\337\152\50\357\165\15\364\143\164\335\363\316\357\61\316\43\134\305"
+  "\15\376\126\223\250\101\360\147\16\337\155\332\76\113\243\54\57\40\43\20\135\40\355\161\233\265\125\2\54\175\203\223"
+  "\344\16\266\115\214\342\262\33\117\54\43\210\333\102\307\163\26\111\23\223\157\121\202\140\114\140\224\346\10\46\244\237"
+  "\211\233\170\264\215\346\121\75\1\341\222\331\122\32\230\41\133\214\30\23\224\127\227\115\127\50\140\65\301\352\355\247"
+  "\336\152\330\27\104\250\252\67\323\337\111\132\135\375\324\375\126\345\225\45\25\51\230\232\362\52\215\20\54\30\361\11"
+  "\105\367\361\304\177\132\100\161\44\22\223\23\311\113\66\221\145\23\221\72\352\52\15\114\250\17\30\273\260\46\17\220"
+  "\7\336\324\263\325\20\141\44\253\251\160\157\350\33\27\165\302\10\346\266\65\270\215\6\307\342\334\72\343\33\133\103"
+  "\332\37\147\41\20\166\155\145\247\11\113\367\201\366\363\226\324\25\46\300\336\217\77\375\207\300\173\203\277\10\244\223"
+  "\103\175\42\74\31\323\374\147\324\116\65\114\165\15\101\235\145\30\222\257\173\20\27\371\245\372\32\52\300\52\254\40"
+  "\163\236\216\14\301\162\104\106\333\276\243\270\211\250\171\62\150\241\366\237\21\44\55\252\150\121\131\332\72\152\332\163"
+  "\221\47\321\20\111\257\153\232\127\342\342\325\103\364\64\135\274\311\340\312\6\117\66\370\262\41\220\15\7\331\20\312"
+  "\206\243\154\260\367\212\305\236\321\25\245\146\40\254\274\232\126\242\250\343\124\57\12\163\315\214\203\136\165\20\116\365"
+  "\70\115\15\364\64\3\50\174\32\40\73\270\211\310\65\105\344\170\117\203\344\72\67\41\171\246\220\134\347\101\110\63"
+  "\375\171\13\70\170\373\31\16\63\376\334\36\37\375\251\167\161\67\72\33\240\16\27\240\16\27\242\16\77\12\265\37"
+  "\230\243\366\203\145\250\17\316\152\324\152\247\216\167\123\264\276\45\371\357\115\142\372\231\166\361\35\130\103\234\32\152"
+  "\241\120\73\10\265\100\250\371\102\315\23\152\256\120\233\17\74\24\40\133\227\60\152\107\210\366\270\64\266\34\112\256"
+  "\224\332\163\337\73\212\110\174\146\111\74\75\61\350\220\14\4\203\305\200\62\350\214\314\104\217\36\206\72\40\213\247"
+  "\72\120\271\4\226\100\106\77\331\374\0\376\341\252\251\32\31\55\25\22\211\270\353\211\34\124\42\207\145\104\102\373"
+  "\350\254\344\341\255\347\21\252\74\302\145\74\354\300\15\275\225\104\374\365\104\216\52\221\343\62\42\256\163\340\142\346"
+  "\143\104\2\256\174\130\117\212\346\120\12\253\321\146\112\313\73\332\376\132\241\205\117\240\242\111\350\106\233\61\225\375"
+  "\61\330\257\244\62\224\147\63\362\214\375\6\133\370\153\270\340\261\352\146\47\144\346\131\52\135\253\260\172\211\23\263"
+  "\164\172\173\254\221\230\15\237\33\51\75\316\32\76\73\356\157\237\375\74\15\217\33\334\364\141\146\76\17\246\71\127"
+  "\155\2\63\106\377\241\21\226\33\31\214\233\65\312\112\146\312\311\76\72\365\207\267\331\243\212\254\231\156\326\144\52"
+  "\276\357\372\127\241\125\351\354\321\135\301\276\230\311\320\314\273\345\47\211\173\6\220\332\376\143\313\43\110\53\243\114"
+  "\362\44\276\116\223\163\123\307\337\157\261\222\11\251\27\107\171\22\36\1\244\335\15\312\176\270\277\43\330\133\207\176"
+  "\217\14\365\230\144\105\174\271\267\157\12\346\204\305\175\362\277\334\113\372\265\353\134\372\71\220\127\264\237\277\331\44"
+  "\357\326\306\200\77\146\66\6\67\222\256\317\141\323\350\241\351\164\234\336\30\200\27\67\25\313\254\155\224\74\367\236"
+  "\367\120\250\121\136\44\137\301\346\257\13\66\342\311\253\71\170\157\204\225\331\20\222\346\150\212\116\237\20\56\270\47"
+  "\234\217\71\172\165\273\107\334\21\352\63\264\254\375\156\216\364\102\123\3\6\167\127\17\76\121\270\127\314\32\342\267"
+  "\23\112\125\353\262\232\71\355\17\7\336\323\104\136\210\52\57\136\62\177\311\374\317\313\334\376\150\231\227\337\51\162"
+  "\136\350\203\141\161\342\130\326\51\134\160\275\272\237\204\74\224\156\334\317\55\344\377\305\376\267\363\13\215\50\145\130"
+  "\267\227\136\132\370\273\21\316\144\231\137\61\356\25\343\346\143\34\123\220\34\325\206\240\263\42\252\355\276\374\13";
+
+/* lib/stdio.wo (DEFLATEd, org. size 188440) */
+static unsigned char file_l_41[14821] =
+  "\355\175\113\223\333\70\262\356\376\374\212\12\267\26\335\147\302\35\44\370\224\117\314\342\154\116\304\154\146\165\67\67"
+  "\342\106\124\310\22\125\246\133\105\351\210\124\225\335\277\376\122\24\111\1\310\4\220\40\101\225\44\153\302\63\143\321"
+  "\44\236\211\104\76\276\314\374\375\165\273\72\154\262\247\131\131\255\362\355\177\74\75\375\236\277\356\266\373\352\351\323"
+  "\162\137\175\172\372\124\356\146\237\236\176\177\331\154\277\56\66\117\263\372\331\227\372\311\323\357\257\207\352\51\17\330"
+  "\37\177\374\1\77\171\315\136\267\373\237\365\127\247\277\234\276\152\377\356\141\37\340\175\64\315\363\57\277\57\312\374"
+  "\271\54\26\273\362\333\266\172\336\355\263\267\74\173\367\353\357\167\213\352\333\363\76\53\26\257\131\335\316\372\120\54"
+  "\237\146\370\313\137\270\127\237\176\337\55\366\213\327\246\237\161\177\337\147\345\141\203\255\107\266\337\27\333\117\375\377"
+  "\367\123\154\176\177\151\376\27\116\163\131\375\334\325\363\370\224\227\213\115\161\170\355\147\324\74\377\322\76\45\16\340"
+  "\334\326\52\177\311\53\320\126\363\324\272\255\162\267\130\146\240\255\346\251\145\133\325\166\263\175\317\366\122\133\355\123"
+  "\142\133\145\265\317\213\227\23\335\55\277\235\333\72\75\377\162\172\72\162\43\371\76\312\254\102\372\250\237\272\352\243"
+  "\376\313\46\53\344\76\116\117\7\264\125\223\331\166\217\264\326\74\37\262\306\313\335\117\154\221\353\307\16\217\116\315"
+  "\216\66\371\327\323\14\252\355\212\353\360\370\374\313\351\251\261\335\165\34\152\333\75\154\66\150\313\365\163\273\361\253"
+  "\373\131\357\263\114\356\343\370\214\157\107\361\351\353\142\263\331\56\345\217\117\117\211\313\270\136\26\125\75\305\117\333"
+  "\35\107\121\315\303\57\307\107\3\66\246\153\161\235\27\253\232\223\156\216\34\125\152\231\377\247\1\75\34\212\274\236"
+  "\152\335\305\76\133\234\67\376\364\364\313\361\331\110\322\352\333\177\337\347\125\46\167\320\74\164\325\303\246\314\262\277"
+  "\344\36\232\207\150\253\65\25\21\311\253\357\141\271\331\226\140\16\315\103\333\261\326\67\113\125\375\224\233\72\75\265"
+  "\155\353\120\154\362\342\257\105\45\267\326\75\167\265\276\373\327\125\276\207\335\264\217\7\264\174\22\110\266\105\225\355"
+  "\137\237\67\213\262\222\4\23\356\137\316\67\167\367\102\43\102\175\311\213\274\312\27\233\374\357\154\165\226\223\352\36"
+  "\2\366\347\162\133\324\337\265\62\320\152\121\55\272\157\236\363\355\327\247\337\263\37\247\101\34\177\175\372\343\351\155"
+  "\261\177\252\333\171\51\376\31\76\175\372\177\236\147\371\307\267\377\304\352\17\233\270\257\130\321\327\343\317\343\317\343"
+  "\317\343\317\343\317\343\317\345\376\174\2\167\366\252\14\203\331\323\351\112\77\135\323\376\323\247\177\375\373\177\376\365"
+  "\357\177\375\237\377\253\372\42\4\137\374\373\277\377\375\373\177\376\201\276\377\274\172\57\5\51\240\254\205\212\177\306"
+  "\314\103\336\174\341\337\364\117\157\372\301\74\102\6\21\307\330\40\24\43\216\23\360\162\261\50\124\57\247\340\345\377"
+  "\371\367\277\124\57\317\301\313\353\42\357\137\356\165\236\372\345\243\102\261\336\325\117\237\4\321\355\351\364\244\326\206"
+  "\216\322\327\172\307\75\374\132\77\374\353\151\306\146\315\257\175\266\376\123\26\267\232\177\150\76\375\363\250\273\317\332"
+  "\366\67\333\355\356\151\346\317\270\177\176\341\376\131\331\322\131\274\213\103\257\177\262\130\255\372\277\157\252\347\103\377"
+  "\43\373\337\277\117\343\334\77\347\353\176\234\355\250\3\125\357\115\63\333\132\1\332\256\327\365\240\377\351\307\35\151"
+  "\110\143\360\3\377\74\206\142\45\375\253\307\15\343\364\327\265\162\272\325\141\137\64\177\315\332\146\352\377\67\214\360"
+  "\324\111\300\300\52\300\325\376\272\357\327\272\151\227\377\173\273\46\362\260\373\41\1\52\151\264\236\132\71\226\250\42"
+  "\37\111\26\271\201\56\362\217\45\214\334\1\145\254\125\315\326\17\172\275\146\335\254\157\363\170\265\337\356\150\104\221"
+  "\133\122\105\116\45\13\65\31\234\365\57\201\20\162\177\326\152\142\335\3\66\343\50\343\244\303\235\206\15\364\70\260"
+  "\73\355\212\311\264\171\132\56\101\163\346\137\47\320\210\37\53\326\247\312\262\146\16\362\22\167\217\144\2\360\24\373"
+  "\37\237\37\154\367\375\137\313\152\273\317\360\117\63\300\76\174\107\163\105\150\201\274\20\14\56\4\273\320\102\34\147"
+  "\246\144\73\55\31\65\324\54\331\13\320\125\344\337\307\311\356\334\255\212\340\327\373\354\144\313\353\354\7\355\203\346"
+  "\36\175\352\14\37\263\165\276\71\371\75\170\163\310\354\165\273\222\236\164\367\250\372\246\335\155\16\245\170\226\266\353"
+  "\315\342\105\172\266\136\111\347\115\171\0\373\7\201\374\40\224\37\44\362\203\130\176\20\311\17\122\371\301\174\364\271"
+  "\347\331\242\304\156\272\355\322\135\215\347\153\240\310\364\367\257\221\377\156\332\47\302\213\147\151\11\336\270\166\343\353"
+  "\345\3\201\32\120\112\356\207\302\267\334\222\234\251\375\236\307\14\354\347\110\304\364\76\364\142\305\371\315\366\322\365"
+  "\205\53\70\22\176\205\330\365\54\12\31\330\60\365\103\367\165\127\244\360\376\221\317\245\317\245\314\257\174\371\43\376"
+  "\222\70\365\61\117\164\27\111\273\144\255\14\22\310\37\373\176\110\377\72\204\137\317\351\137\167\362\317\276\137\171\134"
+  "\66\144\161\32\46\54\140\236\74\365\23\147\102\245\212\0\153\244\126\231\242\300\242\21\60\275\70\361\275\64\215\103"
+  "\213\66\242\31\201\44\145\102\214\147\234\134\232\314\264\164\245\245\223\366\100\264\315\246\102\47\276\330\247\357\11\77"
+  "\347\127\104\341\200\42\302\100\47\41\210\124\66\7\64\52\20\222\341\353\176\125\366\347\5\153\66\14\256\17\107\4"
+  "\234\34\24\104\121\30\166\264\313\11\44\152\352\111\171\341\330\243\165\343\307\101\32\16\354\202\237\125\172\236\155\62"
+  "\203\132\100\302\275\32\317\264\67\2\76\342\323\125\166\366\121\312\262\337\132\255\316\326\232\124\151\311\344\165\367\40"
+  "\363\264\62\50\242\357\254\50\202\44\354\222\157\65\234\51\247\147\325\46\167\22\264\263\110\314\252\174\252\155\40\66"
+  "\67\340\63\155\13\321\330\51\363\55\350\145\177\142\173\261\333\366\340\202\350\265\233\164\50\343\200\266\36\370\16\115"
+  "\246\143\251\50\155\141\314\273\75\45\244\261\12\327\42\77\324\62\333\144\313\12\250\232\264\205\305\31\35\311\300\141"
+  "\267\43\220\225\347\163\73\175\323\367\330\120\215\163\310\204\341\346\116\103\115\255\6\203\320\211\147\24\355\161\316\51"
+  "\260\200\70\374\63\373\121\325\215\74\327\377\364\134\242\244\47\130\42\32\160\205\105\133\365\303\376\326\40\114\142\240"
+  "\236\46\67\150\243\227\151\24\177\111\355\107\224\176\255\302\17\24\174\256\163\354\222\126\252\131\302\364\117\306\7\323"
+  "\320\127\322\330\127\230\305\142\105\37\272\354\5\30\143\165\60\333\24\314\166\11\245\325\341\74\60\17\74\361\57\141"
+  "\231\320\232\12\116\22\326\216\350\60\230\126\276\362\47\221\257\230\163\371\312\160\165\4\27\26\350\342\261\2\135\64"
+  "\132\240\33\55\303\362\55\70\21\350\134\10\210\167\144\17\112\10\366\240\144\224\75\50\61\130\164\364\366\240\304\140"
+  "\115\122\330\203\234\212\334\335\43\262\200\147\51\335\51\314\121\323\12\105\274\347\256\137\315\17\225\213\331\310\145\273"
+  "\142\343\331\365\132\313\272\241\151\315\145\374\113\250\275\254\331\12\117\153\360\262\245\47\337\37\215\175\370\34\152\24"
+  "\230\116\257\265\243\67\314\334\346\300\26\146\224\357\133\34\167\57\44\237\300\336\222\220\154\164\327\325\377\300\75\345"
+  "\26\12\320\105\375\346\20\347\220\374\115\327\14\131\34\164\212\134\260\153\65\44\351\316\100\41\304\234\135\210\52\270"
+  "\336\34\312\157\310\2\20\126\233\37\75\23\111\122\340\355\147\155\323\316\42\32\206\300\1\315\205\245\221\111\205\243"
+  "\167\342\144\102\305\116\40\136\121\275\311\200\322\274\126\375\10\121\374\1\335\242\61\226\366\130\24\17\247\350\20\41"
+  "\11\56\274\310\142\163\344\345\27\320\31\247\270\315\77\327\171\13\160\320\35\163\300\300\352\145\375\172\130\243\354\212"
+  "\210\315\261\200\6\104\106\65\136\251\244\117\301\104\106\152\161\376\154\50\375\16\325\142\231\45\340\306\362\170\247\266"
+  "\203\325\360\130\352\42\102\115\305\13\30\74\57\247\210\272\341\13\70\220\273\71\322\262\207\217\111\60\111\103\10\126"
+  "\352\224\274\142\113\233\3\135\145\207\314\224\150\136\37\117\140\361\225\235\322\344\362\247\324\342\212\111\55\65\160\362"
+  "\330\65\343\123\137\116\317\307\73\255\276\236\270\270\273\366\211\265\204\335\203\214\317\42\367\142\265\234\0\376\66\342"
+  "\216\33\144\210\76\77\141\37\7\232\263\143\257\46\110\73\77\14\116\76\161\241\240\240\172\247\264\12\143\332\347\164"
+  "\127\167\236\315\361\220\142\337\35\337\35\157\250\7\72\13\36\302\60\166\57\142\345\126\74\102\14\342\110\143\200\341"
+  "\20\0\232\223\232\353\124\351\53\210\76\240\334\166\64\267\20\177\356\2\273\163\367\71\362\3\164\245\7\312\26\351"
+  "\304\322\246\33\71\150\22\253\216\117\21\10\205\236\231\345\120\123\50\264\34\276\252\55\103\265\370\100\140\221\321\154"
+  "\230\1\311\166\270\202\322\337\15\115\260\102\35\37\217\367\315\102\161\232\216\304\222\211\254\133\336\51\120\137\362\175"
+  "\364\222\211\126\266\341\247\54\241\14\1\361\224\51\234\147\166\113\106\74\227\147\117\303\1\367\64\360\127\56\375\110"
+  "\31\356\161\113\325\171\152\157\137\300\246\320\66\247\107\241\331\52\311\327\47\257\172\63\255\247\212\104\122\314\366\336"
+  "\224\105\107\265\0\200\171\263\34\142\77\364\354\303\147\223\50\321\152\241\32\13\106\73\46\150\342\102\321\26\53\111"
+  "\237\76\352\334\2\256\353\30\254\56\76\131\156\17\105\145\35\226\126\355\105\255\265\330\144\353\112\172\344\116\51\227"
+  "\27\272\323\44\271\173\274\36\221\374\126\331\351\274\23\204\133\65\253\346\76\16\12\355\101\65\245\327\303\106\136\205"
+  "\146\33\120\44\14\247\357\310\343\30\27\30\157\276\262\67\306\53\233\327\76\72\313\220\372\152\122\52\63\350\222\235"
+  "\227\104\265\216\110\104\54\20\155\124\337\256\362\67\116\335\353\336\266\4\347\245\24\253\1\135\116\161\151\146\40\212"
+  "\166\275\236\110\266\63\320\246\62\76\366\330\132\344\2\52\257\355\21\340\217\43\211\30\13\304\166\260\66\175\311\265"
+  "\217\14\24\341\206\266\332\107\301\373\44\227\333\335\117\102\37\205\116\347\327\217\211\162\22\206\352\361\332\21\272\210"
+  "\40\262\206\123\242\43\262\127\243\114\344\224\51\311\351\314\52\365\274\312\320\203\310\36\245\53\210\267\25\71\315\76"
+  "\322\344\215\124\171\273\325\102\313\327\105\231\271\22\121\106\40\44\232\125\72\216\145\354\11\355\333\120\355\204\233\213"
+  "\107\331\343\110\130\270\153\223\360\50\50\21\335\350\204\256\272\175\70\125\241\266\160\234\161\104\132\120\116\61\332\40"
+  "\205\21\141\1\15\116\315\161\163\213\331\271\220\331\326\332\162\100\161\151\330\360\251\152\371\355\57\113\56\65\105\362"
+  "\34\47\376\100\265\361\41\325\70\41\230\225\105\211\210\116\364\50\356\77\312\136\72\165\346\131\243\147\375\204\264\160"
+  "\203\43\30\257\327\261\233\216\206\372\150\364\367\61\244\45\300\164\64\331\334\234\43\27\231\101\217\166\24\210\160\343"
+  "\373\23\247\332\223\77\174\73\206\311\47\154\364\62\21\145\176\373\273\347\271\161\342\112\230\233\366\221\144\44\134\332"
+  "\132\377\276\356\244\53\152\275\233\231\44\351\300\50\132\273\100\340\314\265\260\123\376\356\154\113\237\0\271\274\175\244"
+  "\172\25\275\36\272\115\224\63\222\225\206\306\4\207\370\214\300\153\71\201\142\10\334\121\141\125\32\3\371\340\245\111"
+  "\161\266\140\25\14\346\116\200\61\204\320\6\156\275\226\46\43\247\263\374\236\51\323\101\54\142\362\235\71\226\305\112"
+  "\314\246\365\205\36\20\13\356\160\215\357\26\354\163\172\15\101\202\26\247\272\370\54\124\245\120\172\132\171\41\301\174"
+  "\342\226\156\117\7\312\13\70\43\210\336\116\256\323\214\77\153\174\34\252\321\70\231\13\75\164\103\173\0\51\347\157"
+  "\106\260\333\131\23\216\32\43\342\304\5\111\205\224\314\314\31\103\105\375\135\76\166\152\157\312\144\333\116\322\257\306"
+  "\3\124\306\153\377\343\46\157\116\337\74\124\346\355\262\241\351\15\252\26\374\203\350\277\161\211\200\31\0\32\112\34"
+  "\200\206\250\352\210\5\214\236\176\135\272\214\174\37\160\135\316\65\134\357\244\134\246\234\146\111\275\100\347\304\13\124"
+  "\175\305\300\376\115\56\342\126\221\21\216\33\222\1\10\36\343\345\330\323\30\60\135\132\255\41\14\3\342\72\332\272"
+  "\130\75\260\343\124\74\353\152\221\35\113\360\315\10\107\312\315\101\73\106\141\135\355\225\273\217\304\224\270\211\10\326"
+  "\103\165\137\324\76\113\7\310\144\273\10\150\312\106\236\127\107\141\105\354\47\64\326\44\150\160\275\367\343\120\310\176"
+  "\334\105\120\350\47\341\14\372\71\36\210\142\55\302\31\75\154\64\27\134\47\57\0\326\256\207\135\24\104\254\220\46"
+  "\120\306\21\156\113\114\222\164\152\46\232\135\6\161\317\221\300\262\243\124\350\242\346\50\161\74\150\314\102\31\276\45"
+  "\320\230\230\173\11\44\342\121\44\26\272\24\310\150\211\260\41\45\50\110\3\44\42\231\340\255\155\123\143\160\65\267"
+  "\205\113\262\302\350\234\216\35\162\151\171\203\55\231\3\42\367\256\71\336\110\35\302\77\134\234\352\170\25\127\46\333"
+  "\122\320\33\242\314\153\20\364\132\374\227\302\160\61\24\360\347\24\373\265\336\35\252\222\323\215\216\77\45\325\250\264"
+  "\325\171\212\325\266\310\54\125\34\51\367\351\262\250\306\251\100\232\264\265\315\360\134\173\207\206\243\43\34\312\336\42"
+  "\247\171\210\76\227\20\175\50\33\77\114\356\300\344\201\222\46\204\3\376\270\24\304\204\146\301\6\224\366\331\51\207"
+  "\50\313\5\172\21\116\57\7\251\275\253\326\232\317\307\310\57\116\245\255\1\362\13\306\337\264\67\13\372\305\156\124"
+  "\32\40\232\100\143\221\175\152\352\63\212\251\237\375\262\320\57\365\322\152\341\113\162\324\76\42\157\225\360\250\327\377"
+  "\267\21\312\216\234\314\244\105\65\332\104\2\346\325\65\252\65\217\10\157\72\265\205\134\51\230\25\231\366\50\310\253"
+  "\50\235\151\204\63\135\102\374\162\104\131\103\41\221\305\261\177\227\147\16\50\3\156\306\270\64\311\274\215\277\203\23"
+  "\172\233\337\303\223\223\272\215\167\260\313\133\217\344\265\374\305\13\10\63\333\222\42\372\354\247\72\122\247\342\43\55"
+  "\263\221\136\264\110\361\344\311\157\331\260\334\122\56\301\165\246\72\211\3\165\33\73\145\355\74\143\247\20\136\346\30"
+  "\137\75\76\161\355\345\373\37\17\257\176\351\30\224\233\102\72\270\375\150\230\32\170\35\271\53\306\43\23\77\73\310"
+  "\370\64\276\70\11\24\75\76\373\46\235\332\55\246\101\43\227\324\275\55\71\261\344\370\323\132\52\61\304\73\115\243"
+  "\147\73\2\44\371\127\6\110\272\5\374\256\5\320\26\303\200\23\301\24\102\26\11\102\135\357\243\24\56\132\225\227"
+  "\143\243\44\54\142\40\36\224\376\100\252\273\103\252\253\201\166\103\140\165\172\366\137\212\354\337\340\212\201\30\65\2"
+  "\40\115\74\63\245\67\131\226\41\20\170\244\263\51\235\314\141\236\276\352\124\357\13\324\103\327\264\146\347\376\175\16"
+  "\243\213\253\275\132\120\334\71\252\334\231\106\173\105\231\177\112\117\355\170\260\256\243\167\24\173\55\222\217\76\262\367"
+  "\334\110\366\36\354\64\222\111\173\103\314\312\320\167\62\70\35\43\222\244\264\60\132\267\311\370\112\25\226\341\262\176"
+  "\270\162\220\243\155\210\257\202\244\223\271\101\356\114\356\247\163\232\155\310\336\117\147\334\170\361\72\121\71\234\220\123"
+  "\130\220\56\100\73\343\140\151\35\236\145\26\301\112\223\373\343\120\210\52\361\351\267\173\115\302\145\75\3\123\44\256"
+  "\155\104\241\175\202\147\265\145\150\256\17\367\237\50\341\264\33\323\245\301\244\76\310\150\175\27\251\73\66\326\20\177"
+  "\202\232\251\54\276\66\54\371\113\72\61\260\335\132\260\31\77\150\227\322\330\0\13\2\271\57\255\156\153\231\61\140"
+  "\10\372\43\35\244\304\353\307\140\27\123\114\66\162\17\25\10\316\35\104\276\273\74\103\156\213\114\71\252\141\60\60"
+  "\326\330\155\56\47\177\170\24\13\205\302\324\362\310\61\7\120\265\305\55\362\355\357\323\0\216\11\206\270\147\373\374"
+  "\45\57\10\226\231\346\243\133\256\272\244\220\165\260\154\113\74\262\171\202\372\105\200\75\235\66\301\234\116\355\26\35"
+  "\240\32\204\135\70\66\303\323\220\361\130\10\30\3\34\256\247\116\214\104\204\156\70\101\262\333\15\233\244\232\306\247"
+  "\313\123\346\353\362\224\35\277\355\5\213\372\357\130\110\201\62\341\261\273\65\70\76\334\20\275\26\273\261\61\45\212"
+  "\153\151\130\171\33\345\164\172\47\214\213\254\235\323\210\306\250\235\341\175\277\330\75\347\261\203\262\216\216\341\316\232"
+  "\41\72\260\2\115\137\316\112\41\255\214\3\47\41\307\22\145\151\4\173\76\340\230\16\316\64\142\132\342\272\241\53"
+  "\300\152\314\61\76\152\156\15\24\214\117\143\134\325\11\44\307\207\66\51\337\302\13\127\110\211\46\51\220\362\241\51"
+  "\205\334\325\201\373\100\150\324\370\54\76\16\212\372\270\60\17\142\171\200\327\166\150\131\242\353\53\235\50\263\327\205"
+  "\167\176\174\121\253\317\27\54\203\210\224\237\162\301\100\76\236\323\43\242\254\122\244\245\137\5\366\341\14\143\122\173"
+  "\140\162\236\377\161\122\10\260\174\124\331\146\243\107\42\36\155\27\202\75\103\260\204\264\317\26\253\357\207\122\25\332"
+  "\353\16\47\121\231\160\22\343\321\345\323\124\135\136\17\304\242\172\112\45\206\73\42\247\305\277\304\175\241\211\122\341"
+  "\6\361\1\101\36\67\143\270\261\12\370\166\227\66\75\165\226\201\133\101\167\262\274\102\343\307\243\52\141\117\150\142"
+  "\341\330\10\167\205\321\172\340\355\10\124\215\215\133\111\145\243\210\231\107\257\227\161\377\252\1\47\36\347\314\201\23"
+  "\217\77\125\330\164\311\22\56\74\323\132\302\125\174\132\36\246\311\326\6\4\7\140\275\327\114\364\170\323\161\23\75"
+  "\376\44\203\360\365\162\162\177\207\2\103\207\172\70\373\354\75\57\270\252\224\247\337\212\1\71\103\71\70\23\372\335"
+  "\236\105\217\124\226\141\212\333\336\245\233\370\203\265\166\27\325\333\143\377\346\265\366\361\276\336\317\341\120\255\135\217"
+  "\1\337\155\45\24\170\375\300\300\152\317\351\164\224\336\105\114\32\67\111\336\50\363\32\171\347\155\306\41\113\304\234"
+  "\50\52\33\271\164\127\240\133\222\332\146\112\52\345\255\51\107\156\215\366\272\353\63\253\34\327\14\241\306\124\303\33"
+  "\55\256\273\272\311\67\241\252\111\373\300\60\53\220\56\367\165\273\312\224\301\11\152\44\36\263\57\164\22\32\135\332"
+  "\321\264\76\356\363\23\70\172\60\132\37\14\327\7\303\363\343\61\125\20\55\223\260\272\111\72\333\152\141\270\47\311"
+  "\171\61\47\265\32\30\305\303\123\342\211\363\354\117\316\46\377\172\54\5\236\221\115\73\341\360\373\277\273\340\250\41"
+  "\17\303\44\26\72\230\156\44\140\156\172\311\43\140\221\355\245\333\206\341\210\165\154\42\54\267\31\232\367\114\221\121"
+  "\217\233\304\221\365\311\32\171\13\335\6\56\242\320\342\143\320\163\154\363\65\127\50\66\242\324\62\270\240\340\24\16"
+  "\207\157\131\36\276\170\364\341\33\135\203\204\216\323\323\321\260\4\325\17\250\31\3\46\165\140\251\10\321\66\235\122"
+  "\237\337\333\76\324\17\230\302\360\14\323\130\153\60\62\316\366\376\104\306\63\167\231\121\202\112\345\260\14\6\77\267"
+  "\241\132\44\263\164\175\331\112\23\206\364\317\251\165\115\77\54\105\32\334\241\24\356\220\155\50\165\150\353\146\323\16"
+  "\3\144\261\72\12\40\257\365\217\355\322\372\236\367\206\206\225\273\254\102\314\154\75\135\223\121\316\364\110\147\37\1"
+  "\77\371\226\141\0\274\20\113\304\214\353\275\67\44\52\45\244\230\142\241\323\225\64\320\105\70\33\251\376\244\103\143"
+  "\100\370\100\145\376\226\5\167\77\152\241\320\144\114\43\173\346\57\5\355\21\72\215\335\146\325\302\114\13\262\145\301"
+  "\302\260\140\266\220\300\13\74\64\211\352\272\73\37\12\20\210\204\42\332\127\32\113\211\150\174\326\124\220\315\313\347"
+  "\355\262\172\136\345\57\171\45\6\60\176\43\130\210\226\337\64\265\245\332\351\247\326\151\102\10\255\162\1\22\33\72"
+  "\356\225\117\170\306\375\135\277\74\253\154\171\173\313\223\134\154\171\276\145\77\176\221\345\31\132\152\312\74\236\171\62"
+  "\305\54\153\376\60\140\232\27\230\156\34\115\61\335\304\33\63\133\173\332\57\253\175\261\311\212\266\247\336\300\334\133"
+  "\326\73\33\364\342\7\305\350\134\162\317\324\251\146\4\77\203\220\0\1\317\26\323\166\256\173\114\314\120\43\174\142"
+  "\320\100\245\50\317\322\224\2\154\200\304\117\314\157\243\315\207\155\216\320\260\113\207\255\113\142\121\42\51\351\65\264"
+  "\265\250\266\271\202\254\324\156\13\35\200\115\203\175\312\21\203\344\211\236\324\4\110\15\360\125\154\275\220\20\10\134"
+  "\261\126\131\107\162\165\335\146\261\314\35\162\200\256\40\171\217\165\76\75\343\141\12\161\33\5\102\330\271\52\21\222"
+  "\220\343\35\327\45\162\243\144\120\74\327\142\350\72\333\13\144\334\144\152\26\330\143\276\372\1\370\145\315\125\305\147"
+  "\57\75\142\107\47\116\324\115\41\214\256\113\75\157\250\212\165\34\231\252\101\220\70\132\27\274\256\315\50\56\353\152"
+  "\350\272\255\363\115\66\361\252\165\114\142\55\127\270\241\46\132\63\54\137\163\262\36\11\16\37\251\74\107\245\362\344"
+  "\13\355\250\363\325\320\314\342\57\34\44\4\23\364\54\343\217\207\244\136\74\345\11\62\146\60\63\25\12\150\366\252"
+  "\346\23\242\302\265\52\53\123\32\306\34\201\303\117\232\112\161\125\126\252\324\352\352\264\347\242\113\64\36\347\40\325"
+  "\233\273\271\10\247\216\231\324\302\144\265\370\272\311\216\55\34\333\74\366\162\354\367\70\22\223\320\267\22\20\344\112"
+  "\206\247\216\52\265\53\317\255\160\277\31\6\304\354\7\344\307\362\210\374\130\36\22\103\207\24\222\206\24\330\14\311"
+  "\302\37\31\221\172\17\47\352\75\46\365\36\251\172\327\3\304\24\332\210\211\151\254\153\106\156\315\66\326\117\153\13"
+  "\266\61\1\17\40\237\154\170\170\135\34\330\323\140\327\307\222\256\331\353\266\252\127\261\45\210\365\40\367\270\365\371"
+  "\154\373\167\114\20\107\25\263\20\110\41\227\304\107\50\165\142\102\346\327\105\51\321\313\173\276\252\276\111\160\303\263"
+  "\274\252\14\314\72\267\334\76\130\111\302\350\337\113\255\254\272\375\113\374\335\24\302\341\161\245\365\350\317\303\150\237"
+  "\175\335\111\164\274\336\31\357\103\337\170\37\6\366\330\277\330\175\302\233\227\315\366\153\57\123\354\253\57\345\156\46"
+  "\153\200\137\333\107\252\127\265\132\145\373\121\51\177\104\350\167\275\233\231\254\22\274\332\246\170\145\5\204\256\206\364"
+  "\314\271\125\164\206\315\317\152\313\346\216\327\7\111\362\272\70\236\116\340\106\162\277\236\150\23\35\71\277\314\331\176"
+  "\137\154\277\64\377\313\263\304\232\57\354\306\17\126\32\103\137\322\276\265\257\141\235\140\112\363\240\216\365\273\175\272"
+  "\27\317\241\63\265\360\273\312\367\331\262\352\30\114\375\31\377\337\77\124\232\0\252\112\204\221\253\324\227\240\345\0"
+  "\304\304\151\20\13\200\361\213\105\363\136\360\123\241\65\135\362\257\323\140\240\332\35\275\65\253\231\211\306\174\267\64"
+  "\146\22\330\21\135\357\170\173\16\310\5\365\70\333\324\263\235\122\162\246\176\300\311\13\207\237\74\333\334\325\16\20"
+  "\316\267\176\362\370\145\136\332\154\43\24\61\36\147\217\172\366\174\346\115\165\261\246\51\375\142\45\237\253\310\366\134"
+  "\175\154\372\323\113\234\253\336\114\11\240\207\274\22\241\272\303\340\71\102\14\253\251\262\71\115\124\276\357\321\277\322"
+  "\337\266\34\222\362\161\335\336\357\165\233\14\277\156\143\133\266\60\76\1\331\343\272\175\234\275\273\277\156\123\333\163"
+  "\5\3\112\150\155\334\364\165\253\274\111\345\124\173\352\4\64\52\242\264\213\66\231\331\160\150\14\170\62\14\302\102"
+  "\317\45\244\35\77\145\260\330\111\350\276\103\114\166\177\57\115\270\51\254\63\172\65\245\7\343\43\62\76\130\272\246"
+  "\235\61\264\70\41\2\40\101\142\131\242\230\65\21\65\317\347\65\372\313\112\0\365\206\16\100\4\315\321\6\200\267"
+  "\44\102\270\221\226\64\271\177\377\42\243\52\224\273\102\276\62\346\266\127\306\370\124\230\67\163\145\70\224\271\20\161"
+  "\374\357\45\151\135\64\162\207\376\62\341\332\277\324\175\241\30\2\242\124\220\356\324\300\247\240\14\77\104\371\101\142"
+  "\77\227\3\61\47\232\352\231\52\320\150\363\167\364\362\131\252\200\1\74\242\314\350\3\43\345\370\341\171\260\350\246"
+  "\4\356\113\123\12\125\255\40\244\213\55\35\121\222\16\351\25\272\120\3\246\253\63\320\137\75\102\104\157\131\355\253"
+  "\355\101\310\241\324\54\110\175\172\165\35\362\234\263\146\115\3\221\312\52\51\310\152\373\221\75\102\6\117\336\164\24"
+  "\47\121\72\300\111\224\340\25\200\341\105\120\22\0\260\133\214\301\353\152\324\212\302\46\10\200\270\321\206\252\32\143"
+  "\5\334\315\210\134\6\277\232\340\153\35\222\23\62\252\130\312\175\103\251\341\154\37\171\143\222\143\227\325\317\135\366"
+  "\45\57\27\233\342\360\212\134\51\372\270\62\71\22\57\262\216\105\32\57\327\76\174\351\152\271\126\147\317\57\155\242"
+  "\215\116\144\122\155\67\333\367\154\157\246\47\376\105\327\24\75\204\106\156\41\124\340\303\150\244\243\15\21\5\251\222"
+  "\17\254\204\353\142\104\220\24\320\21\134\31\150\107\104\130\2\3\256\226\75\26\206\274\330\346\334\241\107\371\151\345"
+  "\100\176\42\241\112\327\366\250\122\351\347\267\354\7\204\221\256\171\30\151\221\275\210\157\140\270\122\251\323\342\67\337"
+  "\263\6\236\232\43\63\314\300\123\163\26\312\324\10\115\205\70\323\71\41\347\244\77\50\13\145\114\310\113\231\114\6"
+  "\162\215\330\365\242\134\65\157\324\64\153\24\357\263\227\7\126\366\201\225\275\23\254\354\103\260\166\153\60\46\354\262"
+  "\302\246\257\147\61\127\202\151\136\16\105\347\76\370\2\31\174\340\115\306\30\22\13\306\220\27\224\325\345\326\152\237"
+  "\255\377\154\344\317\126\132\135\225\141\60\323\154\52\266\107\202\67\255\267\26\162\213\245\126\3\344\122\53\307\40\257"
+  "\366\152\315\13\371\321\77\272\107\274\174\336\36\72\235\377\115\141\154\5\71\111\207\132\307\107\131\353\333\351\275\145"
+  "\373\152\274\271\236\100\115\276\77\31\112\46\111\57\113\250\241\173\102\375\215\133\35\13\132\55\26\305\135\321\221\234"
+  "\201\221\144\25\207\354\67\362\111\76\301\307\55\63\334\340\335\256\46\157\367\241\60\201\353\200\312\301\245\144\3\75"
+  "\351\66\206\175\147\106\250\41\235\107\252\325\31\137\311\116\71\30\177\132\224\31\145\251\164\42\356\164\73\155\77\77"
+  "\115\172\65\177\366\210\233\372\345\342\246\360\216\251\106\47\71\350\203\33\66\377\265\245\334\112\162\350\351\21\156\164"
+  "\144\234\210\261\273\262\350\335\170\366\210\165\272\235\240\6\212\223\152\0\274\352\41\201\136\324\376\31\137\151\200\123"
+  "\72\234\27\330\126\125\31\134\231\345\176\170\201\230\230\350\244\21\206\217\363\370\241\32\41\115\74\270\161\301\303\161"
+  "\221\224\353\0\43\77\360\377\67\42\265\4\63\40\245\204\210\224\22\242\65\301\350\120\372\7\227\34\316\45\113\64"
+  "\31\351\324\134\217\267\257\263\311\114\153\236\321\170\244\33\230\347\117\65\260\170\256\34\330\225\361\336\61\371\236\354"
+  "\175\351\230\63\335\377\145\331\357\203\317\75\320\51\170\265\63\213\43\205\230\44\375\340\376\1\52\37\303\55\303\221"
+  "\110\22\61\151\365\111\113\214\37\132\342\15\150\211\24\235\354\36\164\261\21\26\144\337\332\204\214\324\23\44\266\162"
+  "\107\51\40\171\165\52\202\352\124\214\250\123\61\114\151\256\311\376\161\321\130\333\51\120\27\43\203\155\223\313\4\333"
+  "\106\110\341\120\30\131\273\32\21\127\133\367\160\337\201\265\157\145\121\56\27\5\127\213\263\177\44\225\343\34\26\61"
+  "\262\336\356\137\27\122\166\373\267\205\51\300\226\217\63\351\112\263\235\123\342\167\321\33\347\244\347\355\23\175\35\235"
+  "\112\152\120\12\111\311\112\351\205\274\71\122\162\230\111\265\374\46\265\373\103\314\160\376\123\214\124\311\47\10\71\241"
+  "\27\3\121\307\240\44\116\163\235\353\202\120\50\41\47\21\41\10\5\306\304\200\41\373\140\314\14\214\231\301\365\5"
+  "\143\146\301\144\341\55\54\141\27\16\157\71\122\266\351\235\23\135\233\71\56\213\75\75\347\37\124\70\130\131\124\342"
+  "\304\75\344\301\356\264\325\26\167\364\202\111\224\342\205\366\55\213\1\321\345\156\261\24\370\277\130\67\347\64\213\210"
+  "\336\227\157\323\27\332\40\101\146\335\251\304\43\111\376\221\313\377\304\374\244\22\7\11\270\60\111\130\165\127\327\264"
+  "\171\217\252\17\262\271\116\225\36\323\22\323\16\376\43\62\232\30\31\35\103\175\43\101\316\130\2\213\30\41\316\237"
+  "\141\154\257\5\225\47\24\242\244\330\351\210\274\12\355\332\150\310\33\63\57\165\62\341\1\314\360\304\341\122\236\303"
+  "\315\37\34\356\327\341\160\17\344\52\221\303\245\220\303\315\21\16\67\347\70\134\252\16\33\270\271\363\301\71\177\225"
+  "\165\45\207\212\253\223\22\170\150\113\340\110\321\276\360\336\11\134\343\236\372\114\330\51\116\317\2\37\342\257\215\217"
+  "\20\104\206\216\253\173\143\242\263\210\262\211\376\272\155\350\320\372\302\127\146\311\242\350\304\343\204\2\154\155\337\26"
+  "\212\47\150\275\3\244\151\356\165\323\71\24\347\42\207\312\371\106\323\300\71\335\103\253\115\173\156\224\136\321\101\43"
+  "\7\261\210\205\45\175\230\250\331\323\247\245\100\112\312\133\20\15\317\151\224\145\365\320\65\72\41\276\331\314\221\152"
+  "\335\55\366\251\131\341\207\171\347\316\345\66\333\125\24\353\163\6\251\370\63\21\177\212\5\175\3\261\242\157\40\225"
+  "\364\225\132\226\254\44\122\225\120\117\54\23\72\27\177\212\243\142\342\250\230\70\52\46\216\212\211\243\142\122\75\122"
+  "\161\124\114\34\25\23\107\345\213\243\362\305\121\371\342\250\174\161\124\276\70\52\304\75\275\163\100\36\106\102\346\276"
+  "\340\103\100\132\50\124\244\13\23\21\263\24\262\164\206\3\251\150\137\3\15\50\361\350\137\167\304\302\175\355\133\174"
+  "\15\16\111\232\132\174\15\270\316\334\246\157\260\346\363\304\142\325\102\360\265\305\232\7\41\344\227\26\213\356\103\245"
+  "\325\263\230\71\213\340\347\314\342\363\30\176\36\130\174\16\155\212\136\150\61\167\144\351\154\316\212\7\77\217\55\172"
+  "\107\346\156\101\261\76\134\171\337\346\260\301\245\363\155\366\335\237\51\100\246\264\336\341\334\175\213\225\17\2\370\271"
+  "\315\312\247\360\163\233\363\12\45\24\146\261\362\14\16\236\131\54\135\177\37\355\317\327\372\111\112\10\147\243\215\145"
+  "\335\361\161\155\55\343\224\33\246\24\135\324\31\15\321\267\71\125\303\17\370\165\210\134\254\103\72\361\72\130\55\303"
+  "\220\125\0\47\114\335\43\374\230\67\67\43\247\305\242\45\336\254\303\170\241\226\11\145\340\371\40\112\306\67\300\370"
+  "\300\5\306\273\232\30\217\301\141\374\210\31\177\54\30\77\202\200\37\101\40\24\202\347\107\20\360\43\10\204\320\11"
+  "\176\4\1\77\202\40\261\120\4\20\275\142\207\57\140\0\126\37\232\7\354\24\365\163\7\366\47\204\33\157\45\310"
+  "\371\242\10\35\212\322\170\50\112\343\241\50\215\207\236\131\364\252\24\314\60\364\315\242\223\362\133\217\160\201\52\77"
+  "\146\147\56\34\362\373\25\102\225\31\113\352\50\200\111\113\334\112\341\153\125\117\256\113\237\273\21\170\152\17\221\320"
+  "\2\304\320\321\237\336\1\46\125\251\260\303\1\140\64\33\343\335\163\136\124\210\135\10\22\212\340\5\17\243\207\77"
+  "\345\327\361\247\74\112\72\22\375\51\141\210\104\374\141\270\214\120\0\146\204\12\46\21\314\147\67\174\146\256\337\334"
+  "\56\32\141\103\321\174\224\212\127\141\52\32\246\22\361\126\115\104\303\124\42\32\246\22\261\345\104\64\114\45\22\60"
+  "\107\174\71\26\137\216\245\227\105\46\35\213\267\171\54\116\41\26\247\20\112\202\201\70\205\60\61\333\252\124\67\160"
+  "\22\231\55\125\312\157\23\263\235\112\371\355\334\154\245\122\175\233\22\154\124\252\157\143\177\204\230\64\67\333\247\224"
+  "\363\15\107\210\130\51\301\66\245\234\160\110\260\114\51\107\35\23\354\122\312\217\123\202\125\112\271\307\36\301\250\244"
+  "\234\163\114\260\312\50\77\16\10\66\31\345\307\36\301\42\243\334\347\204\140\120\121\366\34\21\314\51\312\217\171\71"
+  "\234\127\307\102\136\41\14\171\205\60\204\27\136\205\123\270\203\230\305\112\261\250\44\254\23\24\242\76\373\40\146\340"
+  "\264\316\257\331\353\166\377\363\317\165\276\331\350\103\47\100\172\231\201\1\31\204\211\121\46\344\173\224\14\72\16\2"
+  "\107\370\221\152\273\234\117\321\45\43\245\337\160\333\147\160\251\2\170\134\237\41\51\324\335\151\237\201\141\236\301\260"
+  "\76\165\151\14\246\305\57\314\311\46\330\161\266\110\244\260\65\164\46\66\61\57\172\305\120\361\72\51\162\214\373\140"
+  "\64\117\203\336\34\153\352\262\307\232\104\27\336\53\355\121\10\143\375\121\210\146\146\175\125\330\17\276\144\70\51\202"
+  "\162\314\132\316\203\153\132\313\171\110\212\322\235\140\55\361\104\327\221\220\351\72\362\146\56\327\273\310\124\340\234\110"
+  "\324\356\42\346\42\276\6\130\72\307\232\264\47\71\307\372\102\231\266\30\367\41\206\66\267\43\200\373\115\265\365\165"
+  "\233\77\35\270\5\110\267\260\340\264\331\43\261\344\17\110\60\163\11\265\75\33\351\221\43\42\132\113\242\210\20\251"
+  "\354\253\301\243\374\314\151\301\324\16\71\17\72\374\245\61\215\223\156\223\227\42\323\155\202\310\170\27\200\370\43\234"
+  "\231\244\7\315\274\7\242\376\320\125\116\247\135\145\66\233\364\152\153\126\231\367\165\212\77\244\114\267\72\211\316\340"
+  "\100\152\126\253\44\272\145\272\23\42\204\5\106\211\301\141\246\53\32\113\121\301\163\175\363\375\321\36\356\340\270\71"
+  "\37\222\243\42\3\32\226\300\242\363\215\272\0\144\246\77\207\126\262\204\124\360\67\212\25\145\226\165\4\221\333\234"
+  "\264\134\317\67\346\3\363\23\271\217\300\364\254\103\60\275\231\362\331\335\271\324\32\16\211\105\132\106\274\341\260\43"
+  "\247\263\3\256\145\141\102\334\137\64\177\260\260\7\13\163\306\302\140\332\360\1\14\312\75\77\261\316\65\311\220\134"
+  "\223\314\277\147\176\202\305\65\106\274\263\75\112\225\362\155\356\214\133\14\363\146\320\331\15\125\173\124\163\43\336\17"
+  "\357\50\31\44\104\310\20\365\150\156\54\346\222\332\316\54\24\232\75\122\102\231\112\173\364\123\251\246\62\364\214\263"
+  "\221\306\162\36\222\302\173\343\142\136\375\210\171\334\145\314\343\56\143\136\27\214\171\334\145\314\143\131\240\227\24\350"
+  "\55\307\144\120\2\54\101\2\113\210\220\206\104\204\64\44\242\321\53\21\41\15\261\10\151\210\323\21\76\375\371\10"
+  "\377\170\302\106\370\212\23\177\214\257\70\35\341\356\115\202\21\356\336\176\53\366\347\55\75\221\4\357\341\215\171\226"
+  "\233\100\307\166\254\246\26\271\135\270\116\251\305\307\74\155\43\363\366\350\115\305\311\154\234\370\206\213\6\326\45\57"
+  "\171\6\270\200\134\231\17\40\265\224\65\344\102\230\205\74\370\37\16\344\327\174\224\374\310\347\337\122\147\141\144\26"
+  "\36\176\147\201\327\132\317\274\155\5\103\145\206\260\221\70\121\304\164\224\63\150\250\75\347\261\175\337\57\166\317\171"
+  "\34\122\4\77\64\131\4\21\355\374\303\0\133\126\336\153\11\177\107\45\374\35\225\10\257\11\134\201\147\125\211\220"
+  "\366\202\277\45\123\377\352\116\274\303\323\15\264\226\237\217\323\115\313\325\100\245\351\237\12\232\136\327\213\151\240\352"
+  "\60\236\15\141\11\104\274\255\126\171\345\245\161\136\213\12\234\105\331\303\152\155\174\25\67\167\273\7\162\253\256\245"
+  "\304\252\153\54\253\352\172\147\316\227\272\350\123\204\52\23\246\366\51\125\333\337\365\250\270\267\270\351\54\140\12\311"
+  "\66\337\304\261\270\265\220\32\66\57\236\327\371\6\261\244\30\235\271\40\155\43\237\6\103\340\14\135\256\131\230\242"
+  "\327\230\262\22\346\331\350\76\122\157\211\264\43\350\206\134\347\6\310\245\307\237\363\355\327\33\336\7\171\43\260\235"
+  "\370\172\130\137\363\331\250\207\267\316\366\200\135\34\326\252\107\335\202\357\363\342\345\230\231\32\271\160\257\167\303\344"
+  "\54\321\170\216\150\260\145\313\355\241\250\356\152\27\171\223\324\161\162\160\153\352\255\55\352\275\205\171\330\257\166\167"
+  "\337\344\253\352\155\360\135\245\316\355\375\361\367\213\146\1\344\371\123\157\206\201\323\275\44\67\327\315\32\114\173\60"
+  "\37\266\133\210\53\342\235\272\345\51\300\372\70\345\172\23\257\331\345\71\225\246\316\300\366\120\361\63\350\127\312\124"
+  "\123\40\137\375\120\27\31\20\56\210\76\157\76\320\22\127\77\14\236\42\115\175\37\114\131\346\53\357\150\222\240\243"
+  "\316\213\123\354\164\312\241\313\50\166\166\303\302\26\207\26\61\355\160\131\15\135\366\254\154\202\235\134\357\114\25\21"
+  "\2\125\211\4\303\366\65\373\263\336\21\166\54\37\354\267\4\270\60\102\121\36\273\276\74\276\170\124\111\61\360\201"
+  "\73\65\275\223\144\336\102\152\136\7\7\116\223\254\127\351\332\327\173\53\305\376\341\236\10\334\164\275\71\224\337\72"
+  "\376\335\35\376\336\345\154\70\222\373\354\115\70\221\365\263\121\147\122\171\275\201\67\370\162\55\335\175\267\131\274\224"
+  "\46\231\276\254\26\307\232\105\375\40\304\222\51\172\76\176\312\103\323\65\0\26\367\330\75\232\17\107\106\167\350\234"
+  "\357\206\6\175\155\203\226\140\153\146\50\75\46\130\167\361\312\27\146\324\320\301\252\364\5\27\163\305\154\356\105\305"
+  "\125\111\201\262\150\257\152\356\151\115\333\366\50\216\77\164\346\105\27\40\101\1\34\142\60\74\312\171\2\364\345\100"
+  "\172\151\205\42\355\351\12\324\211\211\210\32\366\211\125\363\62\326\271\272\13\122\260\50\160\142\317\133\326\246\302\50"
+  "\372\345\22\131\33\334\72\355\1\137\337\361\371\265\250\230\201\241\256\332\21\152\356\322\242\332\56\236\71\15\350\362"
+  "\367\151\221\275\54\252\374\55\23\237\356\152\255\60\227\332\347\152\240\235\337\132\272\271\235\167\347\161\265\117\376\316"
+  "\366\333\22\275\253\257\245\274\231\373\172\135\134\256\356\313\224\353\332\351\1\267\315\73\315\106\310\244\335\121\315\360"
+  "\42\363\4\320\354\16\71\314\73\313\212\250\73\143\375\310\231\72\134\317\66\54\25\343\326\241\212\133\137\301\334\1"
+  "\310\213\253\172\355\142\356\351\25\317\135\45\167\332\302\21\261\150\62\114\176\217\11\153\321\243\236\260\45\124\306\55"
+  "\363\63\35\13\357\35\50\341\131\211\163\150\62\174\73\134\355\361\342\321\215\163\323\25\272\36\200\44\262\45\264\156"
+  "\50\332\244\16\315\165\172\373\314\22\144\101\340\313\31\320\114\35\10\215\63\172\162\227\113\117\30\346\136\117\207\163"
+  "\310\17\232\103\254\300\20\153\101\262\30\17\13\240\346\301\245\260\33\312\70\21\6\212\255\112\167\314\14\66\164\23"
+  "\147\100\222\343\236\5\34\52\57\107\130\271\275\101\307\143\361\130\233\216\236\107\32\312\311\213\244\242\123\361\6\60"
+  "\121\24\315\267\123\157\304\44\373\144\62\302\351\115\142\330\372\235\207\240\130\101\365\2\77\154\152\167\155\123\213\146"
+  "\324\150\367\46\373\260\171\370\73\334\151\210\244\210\300\253\342\152\63\43\375\242\66\70\336\136\63\45\351\204\320\246"
+  "\307\333\372\304\362\236\104\222\111\314\303\26\271\223\216\146\304\114\251\163\205\124\167\77\173\76\237\176\317\5\24\76"
+  "\54\67\51\325\111\263\160\275\170\306\210\135\316\107\253\331\163\105\51\64\275\362\227\273\125\375\356\207\242\220\345\313"
+  "\355\27\317\160\3\31\213\266\215\364\24\140\125\135\246\226\172\2\227\142\217\37\242\5\323\356\130\360\101\12\320\270"
+  "\227\174\204\42\53\1\122\6\110\343\354\160\22\316\160\362\213\154\266\305\313\44\136\221\267\305\346\220\121\334\40\123"
+  "\272\74\200\307\103\360\271\264\317\232\342\226\203\335\36\356\75\24\174\270\334\105\74\24\310\21\152\166\317\150\63\123"
+  "\230\331\104\313\135\147\224\63\353\352\241\65\240\203\124\315\236\267\152\250\202\41\65\352\76\245\17\322\162\31\160\42"
+  "\234\276\52\252\230\150\77\52\153\337\76\173\345\131\71\2\126\72\325\230\355\13\272\352\265\30\203\175\203\300\373\210"
+  "\276\41\376\366\20\213\315\2\274\27\110\74\315\125\340\321\155\37\42\161\33\172\352\306\213\30\147\342\310\230\220\337"
+  "\336\274\67\140\150\350\202\164\154\203\317\17\107\64\35\233\51\154\225\277\265\24\46\104\51\164\237\51\114\7\334\11"
+  "\321\233\324\40\171\161\374\220\156\56\353\204\27\232\201\1\21\36\354\305\31\134\30\241\35\52\222\257\327\316\331\141"
+  "\210\364\307\214\270\170\174\160\117\306\2\264\121\106\125\70\226\111\46\27\114\342\220\46\230\360\357\75\4\223\153\26"
+  "\114\304\112\146\145\377\360\41\255\70\133\303\351\105\230\272\57\121\204\1\51\44\36\62\315\103\246\161\52\323\324\44"
+  "\67\132\246\321\237\243\3\340\105\17\31\350\303\144\40\300\124\256\136\50\132\125\333\125\333\233\50\304\254\33\341\104"
+  "\51\144\274\56\216\121\213\315\73\355\223\345\122\374\235\375\330\61\121\174\220\242\262\377\326\242\103\277\213\77\313\157"
+  "\342\357\245\370\363\375\1\55\45\312\107\155\130\333\214\160\261\234\171\120\115\14\170\174\125\252\314\314\123\177\201\305"
+  "\162\245\375\277\166\150\115\57\210\346\363\230\45\101\342\205\363\250\377\347\105\201\344\177\51\252\201\375\365\353\30\61"
+  "\75\23\55\277\355\165\2\102\153\227\367\302\4\334\113\334\100\217\244\217\127\42\342\136\132\310\157\104\0\60\41\117"
+  "\26\151\327\123\140\257\64\165\173\372\126\60\371\255\137\143\345\26\305\375\77\157\367\312\35\102\30\77\62\170\337\113"
+  "\42\235\117\245\377\4\304\300\257\336\325\11\57\333\133\255\305\104\11\321\340\257\331\153\331\146\70\340\42\345\214\155"
+  "\373\1\243\340\160\365\313\350\173\335\177\20\321\300\66\241\31\151\320\61\5\100\153\75\150\203\10\255\31\164\347\345"
+  "\341\105\172\270\164\132\42\177\121\26\304\146\163\145\103\372\306\331\34\266\16\144\314\123\4\341\67\44\12\353\274\126"
+  "\100\305\134\312\332\126\20\352\134\153\4\317\332\202\26\315\113\312\221\273\104\207\177\374\335\173\241\63\104\371\354\252"
+  "\72\316\20\364\14\154\136\111\247\32\167\327\231\226\136\17\33\245\217\132\21\44\214\361\165\76\122\352\233\136\27\55"
+  "\277\155\316\67\20\122\257\144\252\131\41\40\135\335\136\71\75\226\226\35\241\372\314\162\11\120\62\343\34\351\162\61"
+  "\370\100\33\146\107\365\230\112\207\150\43\161\223\241\76\330\205\361\316\103\110\320\160\345\35\27\200\41\241\153\14\152"
+  "\134\264\270\101\55\137\325\254\4\362\335\347\271\255\55\141\116\51\23\10\273\223\25\163\45\63\236\33\355\175\113\234"
+  "\14\24\274\70\45\240\265\154\327\200\236\257\34\1\4\151\130\261\230\162\272\303\231\134\232\363\162\13\371\176\1\46"
+  "\11\231\314\273\356\240\365\122\275\261\254\26\215\121\276\233\52\7\10\235\157\150\50\54\130\107\102\344\276\246\271\361"
+  "\353\6\50\137\0\41\215\3\233\34\131\123\12\41\162\124\244\336\337\112\151\116\361\25\247\14\331\363\130\144\26\2"
+  "\217\45\206\7\113\250\73\42\350\323\367\315\353\315\125\22\321\125\222\363\105\210\270\37\240\310\251\17\77\365\232\134"
+  "\350\337\371\205\201\167\370\167\102\346\32\144\131\104\114\156\127\172\23\256\303\213\161\35\346\212\103\44\215\316\124\35"
+  "\56\66\243\161\337\325\246\150\121\214\343\373\32\234\234\106\323\33\52\313\275\163\374\42\66\156\223\126\226\373\176\306"
+  "\244\205\70\14\355\274\203\2\132\155\74\203\362\175\4\157\51\100\77\73\222\261\303\161\373\211\161\204\201\37\322\216"
+  "\264\204\55\236\17\241\135\47\141\233\172\376\73\64\357\374\151\265\347\316\166\224\147\313\342\17\161\41\317\265\312\32"
+  "\13\3\201\7\7\363\210\46\315\135\162\157\272\24\342\366\321\133\3\27\230\371\230\276\41\270\165\74\62\361\133\57"
+  "\67\356\327\33\341\332\330\27\53\331\265\221\43\236\14\311\321\160\330\15\166\24\20\346\35\362\227\232\20\3\211\234"
+  "\237\41\227\30\265\364\230\221\20\243\0\23\323\54\364\233\153\31\275\46\335\377\344\247\331\327\10\367\366\125\63\60"
+  "\35\20\172\44\33\51\344\260\63\6\253\353\320\44\127\266\167\243\323\243\345\352\300\12\310\20\277\153\203\74\277\33"
+  "\230\231\135\210\47\145\241\277\117\162\327\153\34\104\55\361\30\152\54\174\267\271\144\276\217\13\313\34\172\267\175\327"
+  "\306\154\16\336\112\64\144\163\330\126\352\123\331\244\324\310\174\54\54\162\340\6\321\202\37\223\231\326\132\106\340\77"
+  "\372\144\31\223\263\346\50\121\170\116\351\75\217\263\160\323\223\372\130\246\254\30\266\164\172\327\40\114\160\152\163\367"
+  "\255\150\260\52\215\6\46\261\44\321\2\205\133\242\22\243\200\270\56\167\331\62\137\154\46\204\2\257\171\210\257\63"
+  "\100\157\171\111\264\313\35\244\111\323\142\175\225\200\27\165\366\36\32\120\221\42\130\255\312\130\256\42\215\274\222\314"
+  "\224\136\20\253\174\136\303\7\231\232\7\71\67\15\122\274\331\15\50\200\222\310\156\326\127\12\312\55\115\5\132\265"
+  "\375\225\164\146\253\143\250\26\76\104\345\51\150\217\324\17\357\117\217\377\317\356\37\336\323\357\377\365\344\75\375\327"
+  "\37\375\253\233\352\232\366\204\135\147\142\300\351\47\36\134\147\126\300\351\47\36\116\227\22\360\143\120\313\6\170\60"
+  "\347\220\207\214\135\300\16\363\51\337\335\30\327\326\325\166\161\51\271\251\254\176\156\46\13\343\56\153\72\20\45\237"
+  "\14\310\133\310\203\305\112\22\227\212\112\237\355\66\373\261\363\75\111\114\313\177\144\122\63\105\366\122\277\370\241\140"
+  "\346\133\221\367\6\12\163\143\303\232\370\73\321\377\163\315\377\147\367\17\337\143\301\361\132\364\377\114\346\111\74\17"
+  "\374\40\373\107\340\245\374\45\371\122\71\216\263\72\17\350\263\146\104\237\65\103\332\124\6\177\202\153\356\207\356\227"
+  "\115\54\204\240\271\71\53\216\354\30\25\217\202\264\125\1\146\107\66\144\122\143\62\315\105\102\305\277\307\201\15\376"
+  "\335\56\356\110\55\157\231\247\255\71\270\57\232\340\251\261\262\32\52\44\231\107\73\132\124\102\145\24\102\277\3\223"
+  "\27\233\43\112\145\62\61\246\311\25\312\17\374\334\144\204\0\304\300\234\47\366\34\242\272\46\104\257\152\255\154\60"
+  "\261\357\360\221\333\26\111\127\135\27\253\345\52\216\316\52\24\233\67\227\105\366\17\157\216\135\21\104\257\7\77\120"
+  "\237\100\114\375\234\221\5\71\17\134\340\267\134\224\230\40\217\57\134\256\250\6\105\301\3\164\14\41\165\10\231\314"
+  "\41\234\122\312\173\213\126\42\347\374\307\202\230\276\130\21\362\267\15\164\252\41\255\117\231\255\173\110\166\155\302\0"
+  "\61\32\321\245\327\306\10\111\330\307\307\376\134\154\177\264\110\16\241\165\34\275\356\173\23\136\17\347\366\71\335\67"
+  "\264\56\161\207\16\123\314\120\335\265\144\336\2\263\63\276\321\363\106\372\303\24\274\323\314\344\15\354\122\134\121\15"
+  "\40\327\374\261\366\16\326\43\377\365\27\266\223\213\133\151\315\307\150\312\323\343\367\24\373\174\122\336\235\155\264\147"
+  "\275\334\347\27\44\143\273\125\26\15\350\120\111\165\341\64\230\126\222\131\132\366\62\173\143\156\112\331\107\11\130\133"
+  "\72\0\326\52\320\20\206\336\217\100\333\122\236\225\236\362\372\263\110\113\265\240\137\175\106\311\275\177\215\33\37\14"
+  "\307\104\334\302\364\102\215\223\102\320\113\305\134\26\43\330\214\105\305\207\53\137\73\220\54\66\236\53\364\241\213\326"
+  "\305\160\250\14\351\345\72\136\101\172\121\227\363\363\103\53\231\57\262\225\371\216\226\157\325\35\357\253\137\56\324\142"
+  "\252\342\372\23\114\144\252\305\324\321\73\157\252\354\306\241\310\15\144\32\13\147\247\30\146\277\245\326\230\62\147\352"
+  "\122\250\262\46\125\112\165\62\65\176\67\323\61\262\50\327\21\331\246\121\17\135\246\235\106\361\173\167\234\164\72\166"
+  "\25\202\141\300\6\142\54\160\320\241\205\374\117\323\316\275\354\323\305\112\27\61\227\265\250\123\333\223\234\270\74\311"
+  "\217\102\30\3\117\262\241\334\205\14\326\22\42\252\260\250\326\356\76\125\335\261\24\130\54\174\337\123\12\70\126\306"
+  "\72\252\175\14\275\373\26\3\202\31\356\246\170\262\217\205\204\211\321\224\60\44\354\212\204\43\350\346\213\357\357\316"
+  "\0\25\141\24\205\72\210\356\22\232\127\215\162\110\15\347\16\17\267\160\141\231\47\37\124\344\262\153\357\14\344\102"
+  "\276\135\112\161\301\0\245\312\42\252\12\43\122\160\165\50\320\144\104\261\125\221\350\151\250\101\302\114\346\47\323\34"
+  "\246\22\375\102\154\77\302\366\71\102\102\370\307\126\60\112\254\353\151\305\116\13\20\45\206\134\0\367\127\200\50\165"
+  "\26\217\37\317\140\246\10\71\70\177\332\62\103\213\13\242\120\335\101\116\141\146\334\143\346\305\274\54\27\142\6\335"
+  "\272\1\51\307\356\267\305\146\55\76\331\1\154\52\1\276\232\353\163\353\142\40\324\161\365\2\46\111\262\333\77\110"
+  "\344\7\251\374\140\76\31\266\65\140\17\154\353\3\333\372\313\141\133\57\226\201\131\116\270\254\372\212\327\11\221\14"
+  "\354\245\52\123\330\324\371\252\217\134\335\10\174\120\311\300\267\206\375\35\56\237\143\145\53\167\226\16\303\335\55\105"
+  "\204\135\323\272\134\123\300\330\65\255\313\204\361\144\327\70\335\150\40\324\342\312\247\5\334\173\251\314\27\175\346\115"
+  "\17\23\160\16\321\367\3\33\214\376\240\322\1\0\152\131\217\222\141\131\343\317\267\34\222\116\274\155\35\317\251\256"
+  "\55\106\200\226\14\140\1\51\177\262\171\204\226\165\15\372\26\220\325\305\254\250\201\22\162\245\330\103\330\22\17\50"
+  "\126\345\352\204\51\221\271\354\335\232\274\250\112\360\262\132\72\0\35\36\325\121\355\142\163\317\373\167\101\347\246\16"
+  "\345\371\64\377\306\215\26\221\274\216\232\63\165\140\375\273\174\273\252\275\307\276\103\47\311\247\321\37\252\7\31\173"
+  "\240\5\243\250\46\200\347\302\107\305\101\144\7\172\36\205\234\170\353\204\146\27\242\42\344\372\100\117\266\55\377\274"
+  "\62\220\60\43\61\110\267\20\141\237\175\70\36\60\41\141\204\331\107\102\204\231\75\102\230\115\0\20\276\312\355\113"
+  "\157\26\12\173\5\213\7\220\57\51\0\243\373\354\242\102\56\111\216\177\40\56\37\210\313\7\342\322\1\342\122\4"
+  "\343\21\123\231\23\220\170\302\51\266\6\342\15\267\14\344\277\250\363\375\242\40\277\233\303\232\42\300\103\23\132\300"
+  "\163\212\26\360\15\305\100\356\16\157\352\63\147\150\1\17\1\15\312\160\102\343\162\52\134\52\43\253\172\252\105\375"
+  "\173\103\177\75\240\231\37\3\315\14\146\372\342\67\37\11\315\244\231\107\43\324\325\52\130\45\151\226\303\106\141\161"
+  "\177\216\271\306\305\132\360\100\323\46\226\153\103\170\271\320\356\325\24\273\267\56\155\177\207\54\116\52\61\244\52\65"
+  "\204\27\315\122\2\13\335\201\123\211\46\202\7\72\225\264\321\61\266\321\61\122\123\152\54\72\325\72\270\311\167\32"
+  "\335\244\50\20\165\317\350\324\13\126\213\232\34\235\372\126\26\273\175\136\124\153\133\210\52\206\110\135\157\367\257\213"
+  "\352\67\31\246\152\302\232\362\200\324\366\21\17\133\355\120\244\365\66\345\145\276\225\160\242\62\154\264\107\316\166\55"
+  "\301\126\44\210\350\242\314\304\47\47\140\255\0\141\155\36\375\66\107\336\373\115\316\230\332\76\365\45\374\52\227\37"
+  "\266\203\274\112\43\223\376\365\67\77\222\246\126\76\157\66\67\17\157\75\17\314\3\117\300\130\175\60\130\37\214\326"
+  "\7\303\365\301\170\175\60\140\37\214\330\7\103\366\301\230\31\30\63\203\353\13\306\314\300\230\31\30\63\3\143\146"
+  "\140\314\14\214\231\201\61\263\371\365\247\310\75\45\234\42\201\75\133\216\102\251\174\253\63\50\102\226\331\337\101\210"
+  "\65\372\30\312\45\60\311\143\152\352\342\260\1\330\202\356\46\261\53\33\300\113\136\232\52\361\303\313\12\214\155\370"
+  "\174\165\47\346\240\167\107\235\336\233\21\3\43\157\304\116\305\250\213\147\254\127\203\177\312\127\127\300\54\45\310\50"
+  "\315\205\165\234\217\62\123\130\144\370\250\203\136\64\156\17\231\20\264\47\352\114\250\43\107\262\207\112\326\132\51\206"
+  "\134\164\21\210\216\13\271\270\324\64\47\341\104\263\241\131\230\346\337\151\261\66\235\144\356\201\257\43\213\257\375\231"
+  "\321\265\255\376\172\256\160\224\223\76\116\315\46\153\365\307\135\260\334\376\274\327\274\157\201\354\117\200\0\273\363\373"
+  "\206\23\204\24\204\213\46\76\101\232\164\106\105\277\36\261\265\173\205\271\130\16\304\317\30\137\333\162\314\147\166\340"
+  "\371\21\313\201\150\337\311\265\55\7\342\222\322\203\346\107\254\7\22\353\231\136\335\172\370\63\113\47\303\210\5\101"
+  "\314\13\363\253\133\20\146\364\342\343\37\306\20\37\300\143\245\170\116\316\207\354\7\20\142\240\351\32\17\145\163\163"
+  "\75\13\161\160\265\112\276\312\226\317\230\61\337\243\213\316\102\223\213\152\233\253\347\243\23\342\234\211\375\41\41\327"
+  "\337\333\102\361\4\167\271\101\171\234\173\135\75\150\356\130\274\23\220\255\153\167\167\232\6\345\365\256\163\160\351\267"
+  "\352\135\363\72\61\36\22\1\13\360\202\336\244\362\71\101\116\357\255\164\323\123\151\154\246\122\143\24\313\10\66\315"
+  "\13\310\46\12\156\367\11\311\111\105\153\145\304\336\255\366\333\335\35\261\102\221\276\176\135\166\250\167\244\147\324\24"
+  "\351\324\65\305\352\271\325\7\51\2\316\51\364\44\121\171\33\142\40\361\331\205\171\233\2\25\41\271\267\44\347\233"
+  "\224\51\246\373\31\243\256\134\220\166\150\112\13\202\17\2\147\175\17\341\114\201\322\14\20\301\357\143\233\357\23\370"
+  "\175\152\363\75\220\366\174\337\252\377\30\272\271\231\315\367\51\147\117\230\17\110\56\24\71\321\11\220\336\162\176\151"
+  "\46\71\32\123\62\325\216\12\254\257\357\310\167\142\224\100\274\357\271\37\135\210\327\110\151\312\310\130\0\237\71\321"
+  "\270\261\364\124\176\174\323\304\24\16\43\246\330\215\44\210\230\164\374\344\303\150\51\276\50\143\102\314\67\176\172\1"
+  "\257\206\70\147\232\165\327\25\357\100\54\64\376\374\342\163\116\57\271\317\14\321\73\231\167\361\71\317\147\212\177\20"
+  "\305\64\46\372\161\42\311\77\44\372\200\42\321\7\24\112\201\245\242\20\27\210\102\134\20\212\77\305\216\2\261\243"
+  "\100\152\131\34\44\23\105\113\46\212\226\114\24\55\231\70\52\46\216\212\211\243\142\322\342\210\243\142\376\45\344\120"
+  "\6\334\111\101\2\11\312\127\211\141\21\260\67\306\221\305\347\154\256\250\303\101\373\74\0\102\164\342\331\174\16\346"
+  "\236\370\66\237\107\212\354\40\304\271\203\317\347\66\53\317\200\67\156\156\325\73\220\377\347\126\53\17\305\167\317\146"
+  "\351\41\331\41\365\126\164\375\263\231\242\22\12\361\173\157\246\250\41\107\374\36\252\77\236\25\341\303\361\373\66\363"
+  "\147\160\375\175\233\371\107\160\375\175\233\361\207\310\367\126\324\13\325\137\146\105\77\341\371\302\211\370\13\207\11\321"
+  "\353\274\243\231\11\257\361\320\156\306\47\247\145\274\47\204\115\206\46\200\23\67\124\210\45\5\330\270\36\133\12\224"
+  "\101\165\375\130\120\366\367\10\340\274\334\120\273\363\243\313\111\224\176\354\20\347\251\161\204\314\74\102\20\252\201\275"
+  "\155\264\21\46\166\26\102\142\72\262\211\210\216\246\64\6\64\45\342\22\123\350\56\3\301\266\256\217\177\165\77\4"
+  "\317\101\111\130\234\170\202\341\346\145\162\372\62\332\120\330\150\103\367\44\173\176\155\174\234\47\6\234\221\133\150\350"
+  "\352\55\162\346\155\321\46\45\25\336\107\22\346\116\227\225\327\220\332\264\344\323\167\301\60\301\70\324\324\172\127\236"
+  "\115\264\17\174\164\134\16\62\155\171\166\362\64\172\17\76\37\323\322\135\61\150\240\245\344\321\102\75\316\66\11\215"
+  "\213\152\273\170\336\154\213\227\346\177\124\330\141\252\153\214\267\271\134\200\212\11\76\303\63\25\377\66\277\10\35\377"
+  "\66\67\347\204\62\134\125\174\73\206\332\314\150\277\46\32\325\14\121\113\220\223\321\336\130\262\213\103\333\154\30\227"
+  "\41\101\30\317\113\216\332\147\351\265\117\311\217\65\163\272\314\140\160\241\231\73\362\260\220\374\64\147\236\122\51\232"
+  "\164\350\273\12\341\344\123\257\211\46\267\31\345\225\235\173\131\51\42\236\32\232\20\345\236\4\56\41\224\151\50\341"
+  "\376\45\206\253\335\62\242\3\310\173\334\251\356\27\225\105\20\205\165\27\367\153\347\347\211\2\332\4\257\345\262\365"
+  "\57\164\331\372\127\174\272\350\346\74\301\311\214\105\110\136\44\104\222\317\365\305\122\376\307\174\172\313\174\34\135\332"
+  "\20\171\255\27\311\232\140\220\161\107\306\175\145\66\175\230\60\112\251\110\224\54\13\56\115\251\201\360\203\367\110\5"
+  "\274\107\52\20\42\151\170\217\124\20\115\111\335\130\16\247\146\371\232\144\30\306\212\353\211\63\177\25\255\277\170\256"
+  "\266\135\116\331\157\342\217\263\231\376\302\154\100\267\300\247\243\276\254\176\356\262\57\325\166\263\175\317\366\346\354\142"
+  "\116\370\312\172\4\137\101\160\276\54\274\70\137\201\136\177\220\375\171\174\142\125\61\217\125\220\10\1\375\110\126\53"
+  "\374\1\265\104\60\65\303\325\372\216\323\127\35\67\72\110\221\304\144\1\57\362\4\352\312\250\37\145\57\274\273\354"
+  "\40\3\22\275\5\163\376\200\204\336\343\200\114\163\100\102\17\71\40\241\300\36\347\63\53\255\6\11\65\140\321\245"
+  "\171\172\210\125\322\274\164\320\232\376\272\345\135\377\203\35\372\134\66\122\341\122\56\253\175\121\23\213\300\120\116\204"
+  "\377\33\104\244\215\275\314\102\250\36\110\335\160\41\362\355\201\146\212\150\370\101\131\31\103\21\362\33\206\167\237\225"
+  "\61\14\315\353\147\125\317\244\20\303\147\33\326\300\153\125\342\217\0\255\165\20\306\304\64\11\55\15\104\346\71\364"
+  "\164\144\44\1\21\42\36\102\210\341\116\275\76\277\140\105\3\144\201\334\23\20\217\0\25\177\304\116\262\301\206\163"
+  "\173\306\223\72\145\74\142\24\103\344\335\75\343\211\274\13\320\15\57\237\213\77\54\145\21\44\364\217\305\227\226\105"
+  "\40\52\74\245\245\160\301\254\37\301\240\174\36\204\52\170\115\276\325\221\105\360\156\337\171\207\246\271\127\126\137\365"
+  "\343\133\360\300\336\207\37\125\201\211\377\0\67\217\211\351\40\361\261\54\271\70\323\141\346\10\264\373\115\75\212\204"
+  "\351\262\364\342\133\20\114\33\152\170\347\173\210\204\35\263\371\305\275\243\336\14\144\226\345\55\45\14\126\370\104\126"
+  "\7\115\261\274\316\71\143\276\276\230\254\13\23\41\267\177\222\205\113\13\200\320\135\54\122\223\252\62\31\10\337\234"
+  "\254\272\317\124\225\3\326\247\262\1\117\277\147\77\166\333\175\365\364\251\175\360\351\17\241\222\300\172\207\225\10\20"
+  "\237\55\372\244\365\312\22\1\175\21\201\366\167\75\56\356\55\156\102\13\230\341\274\275\134\365\44\47\234\75\263\65"
+  "\252\231\205\342\322\27\356\120\261\276\202\120\376\273\62\231\6\336\220\172\336\225\141\133\344\135\301\67\345\112\67\341"
+  "\370\257\115\245\211\76\251\330\366\253\246\376\20\250\51\164\113\33\125\312\73\125\242\133\365\365\260\276\352\3\124\217"
+  "\157\235\355\1\133\71\254\157\171\153\12\260\67\5\155\163\226\333\103\121\335\360\176\161\217\232\251\334\316\236\275\311"
+  "\133\366\106\346\174\352\2\65\267\302\255\64\313\2\256\351\267\341\367\364\320\205\272\314\335\252\131\4\300\153\337\106"
+  "\60\133\313\125\270\74\203\324\55\104\1\127\302\55\153\163\272\72\123\261\43\365\12\355\263\142\361\232\325\223\352\27"
+  "\250\173\42\255\317\166\263\132\257\304\251\327\217\166\213\276\152\125\373\260\310\336\345\367\352\107\334\173\312\33\40\333"
+  "\357\267\173\234\347\67\235\43\17\217\315\352\36\167\113\122\257\304\313\227\372\377\20\215\243\31\57\362\20\153\232\177"
+  "\254\152\372\364\374\175\121\346\317\145\261\330\225\337\266\325\363\156\237\275\345\331\273\377\345\370\365\363\151\201\101\371"
+  "\300\343\354\111\120\160\53\43\54\275\131\136\43\252\277\52\266\137\232\377\305\117\155\117\120\352\34\311\46\232\223\51"
+  "\16\322\33\112\134\24\112\252\277\255\65\307\236\14\273\302\151\331\73\362\124\135\121\354\212\13\112\225\320\144\242\73"
+  "\22\142\262\341\365\262\250\66\137\326\265\166\135\223\342\106\172\277\241\305\156\375\360\275\327\322\233\342\344\300\342\233"
+  "\260\320\63\165\164\335\76\16\30\235\60\61\153\243\234\70\115\253\206\102\241\41\236\123\167\354\166\260\241\102\227\255"
+  "\74\211\355\217\266\23\143\311\76\173\335\276\11\107\374\370\133\72\342\224\243\214\234\330\375\35\37\140\27\247\327\160"
+  "\70\124\31\162\56\105\53\250\245\156\304\251\224\357\235\323\62\35\212\274\246\304\57\207\142\223\27\177\11\247\253\131"
+  "\243\275\371\46\205\66\121\176\113\325\113\23\370\243\120\374\264\116\222\130\5\241\37\220\213\146\304\342\13\213\275\177"
+  "\255\133\22\326\372\244\0\133\314\53\12\135\320\251\46\12\153\357\216\307\355\116\2\353\331\362\330\374\226\170\134\211"
+  "\225\177\225\52\237\326\337\111\152\203\101\313\216\103\235\347\246\125\71\165\13\56\13\257\147\51\221\153\247\176\10\302"
+  "\17\206\34\33\364\173\142\244\230\213\124\113\45\376\100\45\300\343\61\0\274\62\317\137\337\353\367\175\136\145\42\200"
+  "\205\43\347\224\322\304\356\120\55\125\55\100\364\20\255\5\204\364\221\375\354\36\135\142\55\140\116\6\332\114\270\3"
+  "\370\307\177\374\177";
+
+/* lib/stdlib.wo (DEFLATEd, org. size 82626) */
+static unsigned char file_l_42[8274] =
+  "\355\75\333\156\344\266\222\357\347\53\32\266\37\146\20\314\100\122\253\57\236\203\0\33\54\260\300\1\16\362\264\373"
+  "\160\200\1\32\152\265\332\126\254\226\24\111\155\173\362\365\253\273\170\51\26\213\222\332\227\211\203\40\261\330\22\131"
+  "\54\26\253\212\165\343\247\123\162\70\107\301\342\46\57\16\121\270\377\307\142\361\51\74\245\111\126\54\256\374\254\270"
+  "\132\134\345\351\315\325\342\323\135\224\354\275\150\161\123\266\175\53\133\26\237\116\347\142\21\56\235\317\237\77\313\237"
+  "\234\202\123\222\375\50\277\152\376\150\276\152\377\266\240\17\340\61\352\356\331\227\363\42\13\343\273\146\0\77\255\6"
+  "\70\236\143\277\2\275\152\377\326\264\56\76\245\136\346\235\352\257\325\177\147\101\176\216\240\31\364\143\224\177\304\376"
+  "\51\25\7\151\233\347\32\245\204\71\17\12\140\46\145\353\214\63\211\202\30\230\110\331\112\354\53\310\262\70\271\352"
+  "\377\337\57\125\375\374\255\376\57\276\134\371\223\227\102\263\54\233\51\323\24\210\246\370\221\6\145\277\141\356\105\361"
+  "\371\324\367\133\267\177\153\133\211\63\33\372\72\204\167\141\41\365\125\267\32\367\225\247\236\37\110\175\325\255\306\175"
+  "\75\303\200\75\217\201\254\110\242\344\51\310\204\316\332\126\142\137\47\257\270\57\273\212\16\301\363\260\244\125\343\267"
+  "\272\251\353\345\270\166\141\112\255\176\340\173\74\307\141\311\175\52\112\335\147\17\175\227\115\353\267\252\215\10\331\223"
+  "\227\207\273\74\366\322\374\76\51\166\151\26\74\206\301\223\135\366\173\74\354\236\262\260\30\126\4\176\363\133\367\36"
+  "\155\347\115\203\51\210\37\303\54\211\167\167\314\366\127\200\305\274\172\11\10\362\360\257\40\67\201\243\377\140\116\150"
+  "\322\54\361\167\301\163\250\205\242\177\21\141\20\265\124\111\342\42\310\116\273\252\263\134\20\57\354\117\62\343\342\76"
+  "\367\223\163\134\300\237\327\77\251\76\257\336\10\143\217\41\272\352\313\276\125\6\276\33\240\21\304\337\166\55\266\27"
+  "\237\312\115\125\367\333\265\134\175\36\304\157\71\352\322\371\352\47\161\136\164\242\365\340\25\136\337\313\41\267\157\26"
+  "\315\317\136\24\336\305\277\332\213\253\117\277\377\337\277\377\375\371\273\145\135\311\357\247\25\43\310\167\311\161\147\133"
+  "\213\107\57\153\277\332\56\256\312\367\205\177\157\376\113\156\373\217\324\266\335\176\367\227\174\353\326\375\176\330\174\277"
+  "\335\374\126\77\130\337\3\153\363\243\174\351\267\377\276\2\47\260\222\146\360\257\337\377\347\137\277\377\353\177\377\3"
+  "\317\241\374\144\55\175\362\373\157\277\177\202\137\317\274\370\340\156\167\171\20\34\230\31\73\325\214\203\345\167\313\356"
+  "\341\6\276\15\116\151\361\243\137\251\341\153\167\121\355\221\137\135\10\270\345\126\2\56\254\350\51\56\27\277\224\244"
+  "\111\366\155\161\216\275\175\251\223\25\311\42\13\112\131\31\74\6\213\166\214\123\120\122\134\43\77\363\357\61\14\324"
+  "\376\354\77\4\105\56\203\143\133\133\371\355\163\161\334\356\212\172\74\366\203\253\152\141\54\335\277\233\43\334\36\60"
+  "\177\373\354\117\353\341\357\143\371\355\246\243\10\346\235\243\242\37\313\347\276\75\262\103\157\273\366\55\334\217\355\210"
+  "\337\332\354\347\365\32\37\331\376\231\176\354\255\370\155\65\364\262\151\131\324\255\1\363\6\323\213\35\0\137\162\50"
+  "\163\365\50\126\377\333\54\175\247\122\65\333\327\213\103\277\154\135\164\354\345\46\347\230\363\115\334\74\66\257\104\211"
+  "\137\61\234\343\241\175\247\175\336\267\272\367\360\202\330\20\332\142\203\163\303\164\334\160\262\257\225\200\350\224\371\272"
+  "\275\176\371\153\245\331\126\143\240\257\16\134\315\136\367\15\371\171\317\176\224\213\37\21\306\75\112\375\73\322\53\7"
+  "\246\345\216\375\250\151\52\202\240\306\200\370\126\76\300\131\44\131\260\110\216\307\262\277\137\255\156\113\251\172\35\100"
+  "\161\373\147\357\160\220\106\164\244\21\143\323\21\17\172\30\154\375\53\133\11\314\362\345\110\253\124\325\157\36\262\44"
+  "\25\107\20\150\101\132\326\222\7\236\263\152\256\62\275\357\152\202\77\62\62\262\151\250\267\306\260\11\216\247\202\337"
+  "\6\136\172\3\154\204\362\54\302\121\165\316\77\76\226\377\341\32\2\376\121\370\372\44\175\175\275\21\276\277\276\25"
+  "\172\270\56\245\56\337\311\265\155\313\375\330\216\330\221\355\112\75\255\244\236\326\100\117\22\110\266\4\223\43\301\344"
+  "\10\60\315\310\100\372\206\245\330\340\212\15\53\261\141\55\66\154\304\206\255\330\160\173\101\276\145\135\202\161\61\373"
+  "\306\223\337\362\232\315\265\57\233\36\26\67\75\217\112\322\305\215\314\76\312\135\321\103\30\45\336\241\324\201\104\26"
+  "\322\160\203\360\70\376\323\36\37\313\115\337\20\7\155\267\334\71\1\144\104\101\224\7\330\340\354\273\12\306\71\15"
+  "\326\340\317\6\216\370\240\101\305\50\0\163\354\365\206\253\112\222\135\207\22\342\34\155\173\45\116\122\236\234\227\52"
+  "\132\100\371\14\314\215\171\275\202\13\23\121\365\142\345\102\357\226\114\64\260\334\225\32\72\354\61\306\56\22\126\263"
+  "\340\370\125\72\102\11\120\255\321\236\342\303\114\4\61\327\112\133\326\333\132\351\372\375\122\372\20\64\42\13\333\331"
+  "\201\330\247\64\207\156\20\171\276\375\57\375\130\137\34\333\335\270\333\345\332\335\52\320\245\176\227\201\341\244\134\72"
+  "\171\310\141\166\121\261\313\341\241\54\254\233\116\260\30\215\57\277\334\122\154\367\377\126\174\270\254\370\130\336\260\77"
+  "\255\44\141\222\52\11\234\207\261\136\270\224\240\116\237\44\52\356\33\262\340\264\73\213\224\42\153\245\275\142\274\205"
+  "\167\110\71\135\150\46\310\300\207\360\261\35\230\201\375\244\134\324\273\242\175\173\237\355\112\141\327\341\260\36\227\375"
+  "\333\275\231\102\52\363\55\202\43\155\277\25\25\221\112\242\233\10\322\362\106\275\316\24\220\44\110\230\6\4\326\16"
+  "\66\5\213\177\73\254\335\336\274\115\326\176\275\31\305\334\311\234\377\372\126\342\375\327\66\304\52\133\100\100\1\300"
+  "\1\331\360\303\362\270\305\362\271\15\313\2\327\34\13\334\312\54\360\232\141\25\24\152\347\41\156\10\136\346\5\75"
+  "\114\27\347\205\133\303\261\141\166\50\177\242\346\210\153\206\13\262\177\267\170\7\31\312\34\130\136\315\310\126\0\272"
+  "\343\311\123\6\373\375\260\27\373\215\262\27\333\41\330\251\246\360\27\333\5\30\314\12\142\42\55\50\60\207\261\35"
+  "\200\305\254\271\103\272\305\362\230\133\216\307\330\66\304\144\126\206\344\277\222\310\177\15\155\364\265\322\314\67\47\217"
+  "\1\246\204\216\255\342\61\153\62\217\271\145\370\12\373\167\207\170\5\223\231\216\345\315\254\114\146\45\63\31\333\105"
+  "\341\176\77\134\306\221\271\314\164\323\20\165\164\307\242\33\173\136\207\327\21\164\51\166\26\43\230\35\240\115\71\240"
+  "\66\145\143\352\224\15\350\123\16\247\117\331\113\226\331\331\16\317\355\134\200\333\71\206\302\336\221\205\75\244\326\70"
+  "\266\172\331\6\166\307\364\162\120\253\101\121\307\160\40\252\145\106\75\350\131\50\104\323\310\310\35\6\206\37\157\67"
+  "\162\237\261\11\173\166\15\221\245\340\317\16\135\7\354\250\240\31\237\173\130\142\34\172\6\312\270\235\223\103\73\200"
+  "\32\150\337\242\160\137\236\103\13\226\35\335\377\367\131\357\50\140\176\142\333\30\257\302\34\16\74\257\110\30\357\135"
+  "\365\44\270\356\162\71\170\154\241\366\274\262\264\306\41\65\57\262\42\71\20\240\11\71\150\102\34\32\331\205\30\363"
+  "\376\245\70\270\143\136\202\215\172\71\357\312\125\275\20\334\31\270\166\162\232\24\154\120\304\205\47\232\31\331\211\344"
+  "\230\363\276\137\3\52\153\247\13\132\37\105\63\245\351\354\231\155\277\224\266\144\311\234\232\240\230\162\264\152\374\152"
+  "\34\320\152\7\273\316\271\65\123\30\32\147\305\51\153\124\154\21\263\146\151\144\63\17\215\324\101\247\260\241\132\76"
+  "\6\17\104\175\72\107\227\230\275\311\22\157\101\251\11\30\320\343\236\106\67\0\215\156\144\213\5\73\343\166\305\65"
+  "\232\100\314\213\65\304\330\37\113\220\166\320\340\154\54\342\330\130\364\301\306\76\330\330\7\33\373\140\143\357\216\215"
+  "\11\174\114\307\310\172\355\220\141\144\165\36\2\211\221\225\257\176\15\236\213\22\264\135\371\323\56\377\340\156\37\334"
+  "\355\347\344\156\10\245\263\373\265\174\353\155\262\74\10\374\252\361\5\370\340\332\325\362\301\22\20\234\17\62\220\22"
+  "\370\140\163\166\335\225\174\220\343\175\251\317\307\264\246\125\362\225\116\257\13\356\206\267\272\220\317\347\364\132\210\347"
+  "\114\3\105\270\46\201\1\166\140\42\157\325\43\112\206\21\337\44\250\57\15\214\311\210\20\356\226\6\46\224\254\170"
+  "\33\106\7\150\303\12\46\360\300\171\47\41\32\202\106\100\251\344\101\65\260\177\251\240\365\171\362\227\242\220\64\102"
+  "\164\62\164\22\104\3\165\162\41\164\315\77\224\50\34\270\3\114\211\34\101\10\260\36\10\54\360\0\15\276\266\164"
+  "\132\31\147\44\114\273\235\200\207\175\205\114\260\245\316\103\162\7\260\234\236\322\204\277\225\341\244\230\243\311\302\227"
+  "\266\347\341\300\336\226\321\16\272\112\265\323\113\3\242\170\350\310\252\23\7\117\274\164\250\162\275\271\206\223\220\21"
+  "\241\23\35\76\257\111\207\106\31\101\254\303\14\222\340\147\221\324\174\226\5\110\161\151\222\104\11\131\257\222\114\123"
+  "\142\103\27\13\314\157\144\206\142\132\327\204\3\351\267\114\77\222\231\376\11\36\32\112\361\351\326\113\44\13\65\321"
+  "\43\70\143\3\27\241\267\130\115\256\372\33\330\334\163\317\5\337\346\203\260\177\312\274\164\127\302\144\270\57\104\155"
+  "\141\351\150\64\303\373\114\105\145\254\126\216\114\27\145\215\141\317\31\155\231\13\262\334\121\236\202\240\55\126\317\312"
+  "\130\367\47\25\45\53\210\233\0\271\374\72\175\135\235\231\326\25\220\114\35\130\172\306\167\10\37\247\60\276\64\323"
+  "\161\276\154\12\347\203\17\3\65\346\63\200\307\21\327\21\70\347\120\130\40\350\216\15\306\363\277\314\170\23\106\257"
+  "\317\61\253\306\44\203\27\343\245\330\137\146\310\273\7\57\373\4\226\151\72\250\30\7\301\340\311\230\145\52\11\226"
+  "\300\62\241\164\204\25\141\273\160\41\7\71\305\240\371\64\146\17\316\104\252\0\330\135\70\222\312\300\252\216\123\62"
+  "\344\35\335\353\325\142\254\0\315\176\205\46\53\244\31\101\60\144\123\251\227\56\20\366\341\235\221\100\30\54\42\155"
+  "\103\111\41\205\52\354\100\41\5\362\373\360\130\110\166\25\107\312\10\146\5\311\275\27\35\371\226\302\13\43\301\140"
+  "\315\367\360\360\167\316\324\207\354\110\16\160\356\42\210\272\243\201\205\201\77\267\52\6\101\267\27\12\223\332\216\100"
+  "\341\106\26\65\364\145\307\233\35\244\155\117\74\320\123\234\75\354\164\201\110\54\161\16\33\220\153\266\12\5\27\147"
+  "\46\332\231\327\153\44\346\161\351\240\337\242\72\361\3\356\272\230\240\231\55\147\322\314\134\115\72\336\223\366\14\374"
+  "\200\305\213\116\120\155\56\253\320\151\317\21\20\62\106\252\45\232\164\75\76\105\210\150\234\130\337\30\54\14\146\232"
+  "\330\150\222\221\146\124\137\25\346\27\312\132\154\347\72\125\153\22\205\360\23\361\3\345\374\213\163\374\7\65\167\141"
+  "\321\7\63\177\107\233\357\1\272\312\133\4\55\111\14\241\353\126\235\71\102\21\47\216\143\155\254\245\355\254\124\21"
+  "\347\220\144\351\16\340\70\122\131\171\156\246\6\363\326\20\304\335\122\351\155\262\24\3\120\201\340\30\365\40\352\122"
+  "\111\320\50\167\144\174\110\35\0\226\170\251\13\227\47\54\361\117\265\262\256\176\145\151\13\113\210\101\27\274\122\55"
+  "\23\102\314\73\247\71\15\72\253\121\172\3\176\332\15\365\0\72\340\151\267\37\100\177\62\5\250\230\117\243\265\67"
+  "\332\4\374\167\154\125\72\61\204\264\231\315\134\302\36\307\371\207\65\164\172\161\314\145\260\126\320\301\216\106\136\320"
+  "\335\152\65\243\372\324\314\222\371\126\113\14\353\45\325\316\17\31\326\73\247\71\100\226\174\346\245\143\351\353\102\230"
+  "\120\245\110\15\100\377\3\62\250\221\64\375\7\65\125\154\131\102\340\36\156\111\124\301\217\217\151\62\246\134\210\62"
+  "\123\322\211\370\364\342\207\15\156\23\150\221\125\377\315\21\240\51\237\170\321\11\252\347\163\37\135\100\146\167\133\213"
+  "\267\267\70\243\331\142\163\72\31\103\200\57\104\66\263\40\55\33\160\304\33\147\130\55\305\261\157\124\24\324\367\70"
+  "\52\72\102\355\62\20\231\240\1\121\367\214\204\315\1\106\144\320\27\333\332\270\120\344\15\26\273\61\174\244\32\131"
+  "\12\337\220\300\341\141\157\12\224\1\274\213\261\145\213\314\353\70\10\241\147\353\253\305\376\223\376\142\55\76\375\163"
+  "\141\55\376\371\171\164\102\35\210\136\15\210\312\300\61\161\155\277\334\72\316\162\271\161\254\345\172\273\162\67\233\325"
+  "\326\332\366\257\334\1\111\257\307\56\66\222\235\265\15\316\332\356\146\15\55\130\163\24\31\112\312\363\253\144\200\122"
+  "\0\71\43\120\53\122\73\131\146\353\303\125\145\35\241\162\12\150\305\136\377\222\261\66\2\355\134\26\114\57\226\324"
+  "\214\312\51\241\205\210\101\204\121\4\206\324\21\64\332\60\135\5\341\31\325\10\320\216\200\324\40\40\161\102\117\242"
+  "\33\51\262\103\173\160\122\273\366\14\325\120\100\157\124\362\345\23\273\277\36\203\254\250\334\164\162\160\270\136\171\344"
+  "\353\2\13\33\171\236\304\341\316\102\21\240\345\256\305\30\351\76\377\243\367\375\305\207\124\347\352\73\44\202\147\357"
+  "\20\336\11\245\201\31\217\141\347\211\313\74\277\10\223\270\275\7\143\10\242\343\34\202\136\134\344\177\361\155\203\173"
+  "\22\366\64\126\351\60\161\125\5\236\353\370\205\113\356\316\357\74\334\70\326\13\173\17\313\145\325\276\122\56\264\356"
+  "\235\136\277\102\353\163\154\54\227\342\107\61\264\261\43\140\65\244\245\173\253\367\0\12\101\110\114\20\221\370\65\61"
+  "\64\210\11\347\107\103\232\31\44\370\206\251\54\312\325\142\131\32\204\206\315\226\24\307\15\224\134\126\172\140\221\310"
+  "\104\40\124\133\357\237\255\21\202\205\264\250\65\164\150\306\250\35\201\371\2\20\12\354\66\231\174\174\60\337\30\300"
+  "\361\320\61\63\67\303\21\73\204\150\104\110\171\100\26\167\374\31\317\20\333\352\144\12\163\364\2\376\350\345\130\364"
+  "\22\203\333\245\332\43\24\64\257\51\25\242\106\342\221\32\137\205\261\236\104\250\210\5\207\124\140\261\163\344\374\247"
+  "\234\171\333\54\340\230\23\147\346\324\125\351\112\346\133\276\377\12\257\162\231\233\220\316\153\234\252\251\2\215\71\163"
+  "\337\316\125\326\314\174\154\333\262\351\125\315\122\177\34\43\201\304\30\257\345\263\264\12\31\202\346\243\250\25\266\241"
+  "\306\205\236\43\41\231\222\165\347\213\212\20\277\364\224\70\216\150\373\24\124\163\361\233\7\121\340\27\363\356\2\130"
+  "\273\30\122\53\43\242\357\121\345\63\56\311\114\41\147\276\70\316\30\7\344\334\140\60\120\104\6\120\230\232\305\170"
+  "\267\113\175\340\33\347\166\347\116\363\120\246\125\167\120\65\361\126\43\56\32\125\167\52\150\135\2\264\50\336\226\116"
+  "\205\70\367\253\163\353\336\256\67\313\340\27\353\226\335\161\235\132\175\204\155\41\34\270\202\243\102\146\51\346\344\142"
+  "\231\232\255\255\51\143\142\11\211\324\176\202\130\221\32\106\214\160\163\157\164\312\234\314\342\145\167\354\12\56\222\240"
+  "\354\223\121\226\224\142\216\333\110\322\65\37\354\315\207\72\367\320\26\165\17\125\244\6\155\310\255\104\224\252\135\316"
+  "\251\212\46\223\257\154\254\271\66\263\157\144\14\236\53\307\100\52\2\56\147\332\47\124\336\302\341\356\330\244\313\340"
+  "\33\35\332\37\324\316\201\305\3\271\10\64\10\43\76\107\242\13\210\320\260\55\202\373\351\227\60\76\32\343\344\22"
+  "\340\176\131\56\325\213\155\254\43\21\327\66\245\204\211\122\347\145\342\134\205\124\344\56\77\105\113\100\352\232\14\334"
+  "\373\6\110\73\342\356\15\122\211\145\170\350\236\276\230\41\224\347\347\365\126\122\101\231\233\304\125\223\236\240\12\103"
+  "\116\112\154\116\175\121\40\35\2\246\170\30\225\116\215\373\340\371\55\70\65\110\56\14\351\122\104\310\247\121\365\304"
+  "\347\65\311\16\223\274\360\262\102\233\124\105\311\231\172\355\353\7\177\202\314\52\23\337\10\355\242\324\313\170\66\324"
+  "\321\267\25\311\215\161\335\160\266\220\46\314\256\42\314\267\355\45\171\36\345\46\221\254\330\240\212\111\75\321\213\330"
+  "\136\155\306\37\224\315\274\51\300\245\162\300\100\267\233\371\347\150\133\316\105\46\311\124\161\227\263\214\155\13\123\327"
+  "\45\14\40\303\254\127\323\207\121\353\50\132\123\221\170\345\335\20\112\261\206\144\56\126\222\256\277\57\215\26\6\321"
+  "\334\13\312\366\111\256\300\361\56\334\153\363\72\320\334\71\35\150\330\315\166\157\310\203\66\257\217\314\375\360\221\175"
+  "\370\310\146\360\221\365\232\310\14\336\355\277\237\357\302\334\213\266\265\136\321\203\47\337\212\64\306\203\367\223\372\350"
+  "\120\341\375\167\167\322\315\33\362\17\240\32\213\372\357\137\207\126\315\60\123\124\31\370\117\211\365\247\17\6\244\225"
+  "\200\61\364\152\7\30\345\40\252\262\45\215\14\245\316\205\201\157\55\153\143\337\336\72\53\167\343\132\345\377\373\237"
+  "\21\75\373\165\302\331\241\111\277\172\104\373\344\225\200\226\334\60\256\75\177\13\161\355\350\166\277\154\150\73\140\263"
+  "\61\217\156\247\360\37\340\56\114\25\323\61\121\322\21\61\245\15\252\247\161\53\44\240\276\77\323\176\370\5\176\126"
+  "\277\100\216\326\177\247\136\352\103\273\303\307\344\12\13\260\376\202\230\54\251\126\171\161\176\64\307\20\254\265\264\110"
+  "\242\312\323\257\327\240\147\34\147\132\61\77\243\162\256\306\25\275\244\201\264\164\70\134\311\322\74\53\356\144\61\160"
+  "\106\15\36\254\356\2\2\301\313\44\336\107\165\275\234\317\241\103\275\324\105\101\223\234\251\201\126\262\336\67\247\46"
+  "\374\342\227\321\166\221\21\145\334\215\17\262\244\213\27\306\114\200\162\251\313\54\107\161\322\255\13\143\146\200\335\272"
+  "\140\16\345\326\320\376\247\36\302\246\337\225\74\277\101\104\65\370\166\253\262\207\214\340\251\271\166\375\34\305\372\335"
+  "\51\170\102\157\361\200\54\56\235\107\237\75\267\317\102\232\233\345\153\306\230\257\214\55\124\122\330\335\41\357\52\330"
+  "\100\170\313\165\305\43\227\224\162\17\63\232\260\154\275\115\172\13\202\210\310\163\211\256\31\233\320\10\237\1\143\357"
+  "\142\165\157\60\14\214\43\146\146\130\15\235\316\210\120\347\305\62\101\0\233\331\114\173\160\373\232\126\142\153\226\75"
+  "\270\66\331\203\327\313\61\273\120\376\114\125\223\102\14\227\200\303\212\1\215\235\31\141\224\316\36\346\136\24\237\117"
+  "\163\254\341\124\260\230\140\0\3\56\53\343\30\77\54\264\257\363\321\275\160\224\357\362\346\342\63\165\155\103\15\206"
+  "\62\135\100\71\130\252\2\335\273\376\56\353\6\231\202\111\63\376\37\173\361\13\263\163\367\125\331\271\336\40\227\23"
+  "\120\157\250\333\165\45\50\220\163\163\35\236\325\105\76\164\7\143\137\145\257\371\131\342\262\240\122\72\227\15\307\232"
+  "\222\234\105\113\351\227\343\331\201\130\55\164\342\353\325\374\23\277\265\136\176\336\100\360\30\72\357\57\66\301\272\24"
+  "\27\111\47\177\373\350\346\264\310\144\213\222\330\266\367\362\100\210\212\26\202\246\117\141\174\26\3\251\223\307\143\244"
+  "\273\101\130\10\212\176\344\143\215\17\202\141\52\221\303\250\145\123\224\75\167\260\61\313\275\112\324\250\257\134\65\271"
+  "\355\370\121\153\144\111\240\30\340\6\321\4\75\277\306\276\161\270\360\26\13\220\5\157\20\334\356\316\152\305\203\330"
+  "\147\103\162\343\144\144\221\21\64\200\230\355\336\54\24\242\42\375\251\131\207\152\165\26\350\35\311\54\237\155\214\345"
+  "\132\366\265\53\31\227\243\167\33\221\210\177\364\45\244\61\335\221\141\240\16\73\253\225\224\325\250\264\11\253\251\162"
+  "\16\353\330\224\113\257\45\74\115\53\327\75\346\202\362\213\57\25\144\343\36\267\27\362\351\306\351\11\146\121\5\363"
+  "\236\343\366\166\31\103\210\273\226\310\226\337\5\235\232\262\354\211\4\4\61\354\265\11\307\106\246\315\331\171\316\263"
+  "\124\140\310\247\273\71\56\6\302\13\270\101\362\27\365\202\214\103\203\3\330\313\240\203\55\303\61\16\372\252\314\123"
+  "\301\75\250\211\274\127\172\146\160\266\73\372\235\216\360\37\107\317\177\244\31\260\31\202\335\136\46\156\164\125\235\32"
+  "\265\163\102\76\363\41\125\77\2\244\362\352\13\157\151\51\154\126\300\227\140\1\242\131\224\347\324\15\336\326\66\121"
+  "\221\315\224\235\362\50\226\213\266\25\133\124\31\73\311\155\50\1\70\325\107\314\115\250\174\61\140\332\361\162\165\243"
+  "\226\344\210\316\1\146\62\231\3\17\144\256\35\214\3\34\37\225\161\160\163\152\55\227\322\262\260\100\233\301\236\60"
+  "\316\41\101\75\245\343\72\117\142\224\2\64\142\343\50\214\2\353\151\246\163\211\62\265\226\266\274\354\44\70\134\302"
+  "\330\166\362\236\133\63\231\322\254\366\110\315\331\177\57\331\364\152\33\34\274\350\74\313\300\266\61\60\202\234\302\157"
+  "\153\253\363\61\266\125\211\233\40\201\310\214\371\114\245\223\222\266\30\105\33\176\224\263\155\237\225\261\350\304\172\131"
+  "\250\371\117\237\224\303\62\141\116\342\114\11\142\236\31\134\26\335\135\24\63\202\41\26\251\154\246\204\52\213\2\256"
+  "\14\364\74\343\15\13\257\213\217\107\322\214\37\57\23\327\135\356\312\163\374\301\211\77\70\361\73\342\304\163\363\300"
+  "\256\357\17\46\62\236\211\204\325\116\147\3\363\333\66\41\70\177\52\133\221\270\310\314\233\215\311\147\224\56\37\332"
+  "\250\66\23\303\76\165\311\13\22\232\346\301\322\314\150\221\274\346\227\106\113\44\340\44\232\13\41\4\27\365\104\204"
+  "\70\266\273\161\267\313\265\113\301\103\325\317\123\346\245\125\16\36\15\61\22\146\242\277\73\255\234\105\224\234\337\21"
+  "\265\270\115\231\140\247\15\252\4\60\301\151\143\306\364\162\216\144\354\274\43\212\371\142\223\320\242\305\202\314\145\317"
+  "\357\212\313\116\307\303\37\231\27\37\132\303\166\67\225\347\122\65\10\165\131\232\317\274\72\156\220\331\46\116\264\36"
+  "\216\323\203\354\265\254\10\71\122\134\327\152\51\307\35\200\167\231\222\307\162\246\217\45\37\32\50\205\1\200\324\35"
+  "\34\122\167\116\110\251\27\127\53\14\275\242\351\303\131\225\262\356\326\132\336\332\122\354\344\263\144\142\226\257\326\64"
+  "\60\61\77\253\221\206\47\303\74\303\134\123\213\307\316\304\151\257\141\362\124\256\37\356\146\123\205\236\75\33\223\124"
+  "\306\54\356\213\116\315\364\372\236\147\143\32\174\231\251\315\207\161\204\351\126\74\167\220\73\325\123\47\162\44\166\53"
+  "\45\301\64\374\172\227\7\1\160\150\147\271\271\252\356\372\131\53\32\171\360\162\26\276\56\167\272\34\275\257\250\313"
+  "\211\5\123\71\240\235\37\32\164\151\57\255\215\105\133\144\355\100\343\267\151\213\215\171\210\321\0\116\323\75\7\303"
+  "\311\32\267\70\152\236\70\15\45\175\171\373\212\256\172\372\252\37\257\140\223\117\103\334\117\136\36\356\362\330\113\363"
+  "\373\244\330\245\131\360\30\6\117\366\267\64\113\374\135\360\34\26\332\1\213\352\55\146\304\372\131\40\351\143\254\323"
+  "\170\172\322\6\15\175\111\134\4\331\151\347\227\232\127\241\340\155\215\43\233\163\4\17\253\315\364\121\1\237\323\6"
+  "\61\200\102\266\367\211\106\34\344\143\374\242\161\134\330\36\343\61\225\224\47\6\351\363\53\16\254\167\136\170\105\27"
+  "\150\17\24\60\54\332\360\302\66\220\265\304\116\205\233\60\56\151\107\67\164\30\207\105\130\116\355\257\140\27\304\217"
+  "\141\226\304\3\40\362\157\35\130\335\265\251\131\226\144\102\260\376\371\264\53\317\7\102\270\176\373\371\156\177\76\302"
+  "\77\310\237\114\51\70\76\277\121\175\351\134\302\250\316\276\332\256\107\207\151\363\260\170\23\353\156\137\55\264\11\341"
+  "\51\327\161\224\125\136\165\173\231\202\7\166\213\235\227\24\225\357\312\76\305\375\130\323\23\231\245\53\60\323\126\11"
+  "\107\346\64\376\26\106\66\141\267\45\164\135\264\230\71\70\56\120\235\252\245\216\123\371\220\370\22\332\206\335\65\36"
+  "\32\305\174\0\40\174\24\10\12\116\240\360\15\176\12\334\200\307\54\30\212\333\166\240\203\351\244\2\10\332\1\64"
+  "\204\172\51\22\35\73\177\154\256\363\140\214\145\36\20\107\32\355\115\102\301\220\71\313\226\42\266\201\234\373\345\366"
+  "\206\42\277\15\307\246\152\261\216\330\25\223\154\102\322\46\234\151\320\331\4\107\352\332\214\147\37\17\273\247\54\154"
+  "\365\210\76\340\114\302\174\160\112\213\37\34\245\134\202\222\144\365\245\374\276\354\164\120\131\232\147\321\46\352\235\2"
+  "\235\276\54\335\20\137\165\13\333\316\313\336\314\67\170\377\125\267\117\263\60\276\253\314\237\374\235\111\334\5\342\334"
+  "\226\226\225\61\340\372\14\235\102\301\336\215\26\77\312\67\156\360\254\201\50\54\205\133\346\164\327\163\364\230\60\36"
+  "\14\270\151\112\304\146\354\237\322\61\111\40\163\300\62\262\100\303\332\236\241\234\335\154\100\253\64\37\270\62\0\34"
+  "\60\372\110\144\232\34\35\22\52\312\7\12\311\212\360\207\175\36\170\231\177\77\60\210\266\101\340\20\17\301\17\255"
+  "\263\376\24\234\366\102\161\310\162\63\362\55\45\365\351\30\315\51\74\204\207\147\341\172\247\360\220\354\377\20\257\216"
+  "\72\36\231\317\211\71\223\25\220\52\16\64\374\6\30\217\206\20\160\366\226\215\32\126\112\240\1\374\146\205\40\302"
+  "\131\274\33\253\304\201\330\103\271\60\300\120\300\213\335\276\257\30\302\56\214\17\141\26\370\105\267\56\345\220\362\262"
+  "\110\171\3\45\302\315\25\127\6\32\74\174\6\355\36\271\373\25\236\56\207\131\0\233\140\60\110\117\0\360\302\151"
+  "\257\237\7\342\333\373\56\301\170\106\221\50\304\157\272\104\22\172\322\251\301\326\217\203\247\73\57\345\266\171\371\114"
+  "\160\216\167\137\201\327\366\0\256\240\245\162\23\325\164\45\167\67\333\25\346\50\244\272\272\300\266\124\173\240\353\16"
+  "\240\136\140\44\245\231\20\251\156\100\30\1\131\321\77\163\316\26\133\77\12\214\174\52\337\346\130\365\100\56\235\201"
+  "\211\177\24\70\166\152\13\317\216\160\363\336\223\227\246\301\101\241\125\12\233\223\103\227\222\213\13\167\246\250\163\355"
+  "\241\353\325\224\32\132\67\54\247\177\62\333\11\200\20\311\100\151\247\15\134\2\115\270\374\130\45\164\232\202\237\66"
+  "\232\171\26\222\30\40\73\3\366\266\227\201\252\315\57\122\16\261\101\0\156\55\261\367\324\246\10\335\77\106\312\333"
+  "\232\55\245\316\114\42\324\120\236\311\123\223\41\351\347\301\251\367\345\352\125\264\244\343\61\54\275\151\356\174\16\147"
+  "\270\304\31\112\356\222\347\250\223\327\355\27\204\33\241\25\132\67\306\240\231\204\276\221\11\325\14\112\261\242\30\275"
+  "\74\257\167\211\106\233\307\234\272\373\354\241\336\134\74\157\327\206\371\244\60\157\225\374\377\66\230\177\13\116\157\250"
+  "\70\320\341\345\34\147\201\347\337\173\373\50\120\234\112\154\55\0\53\130\301\272\27\165\213\57\175\40\346\226\0\261"
+  "\153\136\262\5\165\134\115\235\107\263\173\317\161\130\56\153\275\246\22\17\122\204\214\41\271\326\26\345\116\52\262\175"
+  "\126\220\237\343\27\137\32\35\241\356\364\34\105\243\250\173\57\350\37\351\136\174\166\136\374\112\136\311\22\270\77\373"
+  "\17\101\221\153\111\7\167\322\122\354\30\15\11\111\35\23\214\161\251\20\254\106\163\362\316\332\245\113\61\160\33\336"
+  "\357\333\21\343\205\326\104\123\171\214\214\0\232\135\276\353\17\337\352\30\153\217\324\171\354\373\320\54\277\210\337\262"
+  "\34\371\215\41\225\13\310\13\110\247\330\73\77\307\26\35\27\100\324\115\337\74\325\273\373\22\257\326\304\102\110\45"
+  "\151\307\150\116\253\121\134\340\5\166\377\172\126\144\323\267\71\37\72\316\51\211\210\274\75\307\121\30\143\372\144\127"
+  "\271\162\77\103\210\40\274\317\325\356\175\275\261\361\5\326\23\50\300\277\237\316\314\301\102\336\24\234\350\4\315\14"
+  "\240\51\351\320\134\45\340\127\313\140\322\343\124\203\345\315\150\72\43\251\16\210\332\232\337\23\66\321\30\305\165\237"
+  "\377\45\276\20\126\56\150\137\156\315\317\276\177\101\45\227\61\50\225\250\310\176\274\266\0\315\131\111\43\35\62\270"
+  "\167\246\250\106\363\351\42\254\17\242\275\240\135\46\125\266\173\346\336\167\117\135\102\21\375\16\270\152\264\43\40\323"
+  "\214\145\266\74\50\255\264\215\156\44\173\243\52\264\310\140\166\274\343\27\40\15\26\40\116\142\212\202\320\114\41\146"
+  "\127\26\37\224\45\313\336\254\65\154\47\364\242\20\234\100\0\63\146\313\23\136\146\241\261\221\136\145\241\173\200\136"
+  "\156\241\215\226\30\272\202\176\170\15\325\367\57\160\110\100\365\234\121\352\2\375\114\114\75\42\214\121\6\14\117\10"
+  "\350\131\164\155\24\26\202\37\221\344\234\262\25\222\235\241\50\23\367\2\372\357\152\44\135\40\332\322\61\214\17\373"
+  "\207\242\363\177\367\352\221\367\243\26\371\32\123\337\76\172\70\205\61\354\116\224\100\155\272\24\61\335\32\216\227\334"
+  "\355\15\312\272\176\140\37\104\132\0\342\2\32\370\341\30\172\166\311\204\327\42\134\246\73\112\115\44\242\171\70\54"
+  "\265\334\121\367\335\227\36\211\17\172\223\271\263\321\246\323\5\165\370\64\223\121\327\64\10\216\354\24\57\25\2\350"
+  "\330\202\112\55\250\334\261\340\312\116\262\273\130\374\342\332\25\365\355\353\325\314\127\202\42\126\172\12\277\327\227\72"
+  "\202\155\163\43\224\2\334\1\61\316\63\260\247\225\36\142\346\40\163\320\15\101\211\237\0\43\352\53\233\352\107\274"
+  "\210\345\123\305\216\124\276\36\145\100\314\4\254\305\230\47\374\154\164\5\361\54\310\130\303\41\15\210\0\330\117\124"
+  "\244\142\123\305\103\231\223\4\107\205\60\203\160\252\156\313\75\245\40\263\164\202\345\251\356\241\142\220\162\75\14\343"
+  "\332\320\24\177\45\0\254\266\152\32\10\236\362\45\216\135\60\205\30\305\370\12\77\375\241\14\152\120\236\5\4\117"
+  "\11\153\45\222\47\111\274\60\162\314\140\130\177\0\345\10\32\32\307\164\257\135\72\333\345\240\276\166\215\234\107\327"
+  "\253\61\207\36\351\53\327\320\127\147\274\131\273\41\321\263\207\43\146\273\350\357\232\0\346\142\176\306\220\27\153\304"
+  "\51\103\3\324\232\30\20\77\66\116\375\44\50\205\47\110\47\214\365\227\333\231\262\114\4\44\137\0\311\307\100\352"
+  "\42\53\377\62\11\321\101\342\377\344\172\331\100\305\350\221\132\110\214\37\225\340\101\231\22\351\254\44\325\335\171\0"
+  "\167\306\227\54\317\325\32\204\251\354\3\243\152\106\50\326\232\321\373\160\274\66\77\122\272\226\145\114\130\114\225\263"
+  "\70\120\133\365\4\37\211\56\160\216\260\160\334\112\323\103\353\105\344\154\265\210\234\272\205\111\312\44\361\342\61\344"
+  "\372\11\254\216\146\114\235\143\304\115\62\372\131\147\51\114\23\236\47\134\6\30\51\301\71\134\225\6\316\223\120\25"
+  "\65\46\125\105\45\317\263\344\154\303\54\313\7\141\216\131\137\166\241\233\364\371\304\67\34\272\324\111\336\204\365\246"
+  "\352\67\314\126\24\271\346\260\107\271\11\72\22\161\345\210\233\44\40\46\353\256\222\50\371\344\144\145\143\325\17\7"
+  "\52\13\116\306\100\145\224\122\21\115\150\152\51\63\222\354\107\331\224\376\230\61\11\70\342\110\70\372\240\341\17\32"
+  "\176\177\64\54\20\61\231\212\153\1\304\122\261\124\213\376\203\212\61\202\151\257\77\142\252\344\101\4\263\235\132\262"
+  "\302\61\5\212\241\142\62\120\44\52\156\27\340\62\144\174\332\127\205\24\206\143\154\365\50\326\262\42\172\66\20\115"
+  "\57\47\34\216\116\373\42\171\362\365\360\126\157\261\0\127\317\270\57\46\67\164\315\204\202\353\305\267\204\147\301\123"
+  "\43\74\107\374\143\241\330\272\30\216\232\164\245\224\115\132\13\113\225\361\117\365\335\110\232\304\10\215\75\123\225\67"
+  "\7\16\32\246\64\67\15\263\233\174\311\136\20\151\357\301\362\201\164\110\311\265\174\56\216\333\135\321\133\372\231\357"
+  "\13\264\130\106\161\241\122\31\276\242\205\30\276\21\373\112\153\256\157\215\235\203\47\57\170\101\14\100\124\146\321\107"
+  "\264\36\155\107\3\115\115\35\324\316\326\122\147\375\211\14\243\327\321\366\6\134\106\105\46\201\50\330\51\330\127\367"
+  "\254\160\132\60\16\1\312\306\206\311\261\67\211\21\366\72\274\373\51\51\227\251\222\240\251\154\204\275\161\166\20\331"
+  "\317\122\121\57\310\210\314\262\40\261\263\133\107\172\35\303\204\124\200\125\21\111\331\154\326\376\307\44\203\71\237\42"
+  "\53\264\120\157\205\166\226\26\206\356\102\276\34\134\137\242\205\235\60\213\116\203\334\104\175\305\314\47\277\110\116\373"
+  "\235\177\377\200\351\26\117\276\164\161\323\120\347\111\135\12\312\110\74\27\106\252\64\263\24\117\376\130\41\206\334\32"
+  "\71\301\41\371\232\242\21\217\274\154\226\115\233\175\254\215\251\174\123\2\170\274\310\213\2\145\162\75\334\307\126\345"
+  "\343\366\61\245\121\45\250\12\262\37\35\236\247\317\125\160\316\105\326\66\315\215\327\256\244\313\226\273\220\243\373\374"
+  "\61\205\13\174\65\307\226\3\340\374\213\336\367\212\256\230\124\204\260\223\163\143\26\245\235\352\22\251\156\251\132\46"
+  "\146\75\321\25\313\330\322\6\160\271\3\127\265\61\351\125\311\346\225\204\60\163\322\261\54\64\144\222\371\302\104\340"
+  "\232\13\315\341\260\333\74\343\307\363\136\204\142\276\234\134\41\333\320\62\262\202\10\107\17\351\171\165\52\317\331\143"
+  "\172\323\42\36\324\253\227\46\235\325\23\261\342\217\360\314\224\16\322\35\300\53\140\244\240\242\324\360\230\256\253\367"
+  "\66\46\356\154\232\246\254\116\322\111\364\312\375\32\265\323\60\134\214\253\227\242\51\16\161\301\363\5\344\130\223\247"
+  "\51\335\302\215\26\74\114\264\147\30\203\272\61\241\76\122\154\312\205\345\130\110\125\102\71\325\232\320\32\315\122\317"
+  "\326\106\30\225\250\311\127\247\171\255\205\235\355\334\173\221\365\66\250\310\207\42\260\347\201\142\50\252\210\316\301\4"
+  "\217\312\257\274\22\31\71\53\301\232\26\134\206\311\142\201\166\20\24\231\177\62\257\60\10\365\302\40\61\21\6\232"
+  "\143\22\135\42\150\353\342\63\321\220\210\302\254\265\321\150\367\72\63\43\114\165\60\225\33\6\34\100\307\177\251\372"
+  "\40\327\17\256\375\315\305\153\265\265\306\247\105\111\212\174\330\350\72\340\31\130\261\75\222\25\137\122\137\7\114\246"
+  "\4\316\357\232\160\376\271\70\263\314\226\31\306\373\371\37\377\17";
+
+/* lib/string.wo (DEFLATEd, org. size 22342) */
+static unsigned char file_l_43[2123] =
+  "\355\134\133\157\243\72\20\176\337\137\201\52\36\322\227\52\320\166\317\252\322\152\377\310\221\52\2\116\223\206\133\60"
+  "\71\233\354\257\77\306\100\142\217\75\306\46\244\331\356\106\252\324\62\365\145\74\236\233\77\17\314\262\42\331\245\304"
+  "\363\151\135\255\363\267\57\236\67\133\147\145\121\325\336\135\134\325\167\336\35\55\375\73\157\366\226\26\213\50\365\174"
+  "\106\173\141\24\157\226\355\152\157\375\30\336\337\337\253\135\62\222\25\325\201\365\152\377\150\173\165\177\317\165\35\364"
+  "\163\360\341\305\306\264\116\322\365\242\231\40\112\323\42\146\135\226\273\74\156\130\157\350\57\55\325\233\225\121\25\145"
+  "\274\267\67\253\10\335\245\72\116\111\125\345\5\33\352\225\144\364\115\230\234\323\137\70\125\145\40\256\17\45\141\235"
+  "\352\42\55\176\222\352\310\0\247\277\164\324\1\6\372\211\132\171\277\260\137\165\261\171\135\25\151\322\164\75\212\265"
+  "\151\232\104\165\164\154\230\320\307\107\337\213\213\234\326\136\224\256\337\362\357\201\167\367\143\227\157\362\342\147\356\61"
+  "\266\213\352\337\371\374\216\167\354\305\302\73\56\176\221\252\360\146\144\337\256\201\77\362\146\136\317\251\237\320\272\143"
+  "\267\43\344\355\43\157\304\144\32\245\17\157\244\346\355\70\211\375\363\241\345\144\16\233\344\234\320\156\366\303\162\235"
+  "\246\374\271\42\365\256\152\376\245\262\307\232\306\161\171\70\61\330\21\206\130\244\125\54\23\142\355\22\304\15\150\327"
+  "\63\343\334\172\376\266\153\320\75\226\362\143\274\222\237\327\201\157\226\111\113\242\15\151\13\333\60\136\141\233\222\23"
+  "\26\214\262\361\374\300\357\376\135\224\236\37\372\172\231\52\204\323\56\4\307\147\272\133\300\231\272\306\113\70\310\126"
+  "\117\320\215\32\45\211\151\215\65\41\134\100\160\300\122\117\260\234\341\324\70\55\242\344\333\53\365\212\345\222\375\347"
+  "\373\274\327\377\143\3\262\257\111\336\64\201\114\305\253\223\144\352\242\42\337\364\143\10\54\12\75\164\243\266\155\220"
+  "\46\234\262\65\212\373\150\10\236\307\72\266\72\120\35\367\274\47\261\337\42\355\250\40\320\356\6\314\152\125\311\126"
+  "\265\252\200\121\321\363\54\210\226\172\223\240\160\53\351\365\265\235\132\252\323\271\333\334\315\243\331\147\265\221\236\75"
+  "\13\323\350\132\47\125\121\136\130\205\262\122\126\241\254\204\52\24\0\267\34\72\52\121\34\0\307\33\312\317\11\242"
+  "\143\1\24\112\254\154\40\15\225\66\241\41\176\361\26\311\325\65\125\135\107\34\270\50\207\320\172\320\161\266\303\205"
+  "\317\317\247\1\125\155\215\103\204\142\313\120\70\5\103\252\24\271\207\357\175\350\353\172\171\334\57\7\163\20\3\271"
+  "\215\75\300\104\145\104\236\202\132\4\232\124\150\162\10\65\327\212\213\362\200\15\143\136\24\373\221\26\305\176\300\242"
+  "\126\321\201\326\21\263\10\355\102\372\107\102\22\166\220\220\150\331\220\365\37\144\143\337\313\217\357\362\343\106\176\114"
+  "\365\262\353\231\205\152\250\110\247\145\30\66\333\303\146\231\340\364\177\41\66\53\315\151\366\375\31\356\64\336\352\327"
+  "\235\70\1\352\253\117\3\103\23\324\362\235\23\204\355\75\60\314\335\140\114\104\173\4\152\122\266\325\257\105\161\312"
+  "\33\303\112\170\203\366\14\101\122\112\206\132\156\206\346\112\21\351\51\161\340\335\41\16\274\17\6\206\114\161\141\134"
+  "\204\104\336\157\167\71\13\75\16\172\256\114\76\32\376\155\124\2\243\42\51\22\330\230\2\302\273\274\237\332\145\213"
+  "\373\247\16\63\264\142\161\125\26\43\145\150\343\176\273\130\323\24\44\106\32\267\40\71\272\363\215\315\162\201\203\333"
+  "\326\131\242\306\200\346\262\71\54\107\160\140\366\166\212\142\244\26\212\341\176\60\72\56\255\63\330\47\321\140\37\175"
+  "\361\137\317\276\176\221\223\170\301\371\200\27\124\146\65\113\357\200\263\152\221\167\35\344\103\2\227\327\263\77\66\147"
+  "\345\331\126\56\146\133\217\302\76\210\177\77\371\106\47\73\220\214\24\377\21\71\33\141\204\317\237\143\65\33\42\256"
+  "\212\75\17\55\152\232\45\305\166\0\235\373\202\176\106\362\321\260\41\200\45\145\340\154\230\205\70\312\210\300\160\0"
+  "\244\253\263\22\201\345\216\204\20\301\351\262\100\17\60\211\115\102\75\312\165\315\323\240\23\154\301\107\252\263\322\4"
+  "\304\141\140\335\326\376\220\146\11\245\251\20\241\52\264\132\210\243\226\303\116\201\52\36\235\342\304\170\350\30\104\306"
+  "\140\147\354\127\34\121\42\241\60\47\232\55\22\63\32\172\201\30\370\357\6\305\50\133\163\171\54\145\67\36\113\21"
+  "\1\351\66\235\224\256\215\56\216\272\40\254\143\254\30\361\26\135\252\13\371\322\345\367\2\272\156\106\172\372\234\372"
+  "\224\13\176\0\300\303\115\253\6\246\126\333\47\37\66\241\31\352\273\164\260\150\46\134\125\130\126\242\64\55\17\250"
+  "\63\263\10\342\355\144\362\152\155\157\10\224\225\332\205\110\72\51\6\217\236\106\251\303\315\221\14\351\130\40\56\310"
+  "\75\7\230\330\6\304\37\35\61\224\31\7\166\31\206\217\133\350\370\304\241\343\12\41\342\57\15\5\42\326\337\76"
+  "\237\21\12\220\3\15\264\223\362\3\253\16\102\321\56\2\11\44\171\364\157\325\2\350\131\104\4\74\154\52\7\240"
+  "\237\22\142\227\254\313\22\242\45\50\261\173\134\247\145\56\353\56\43\234\355\363\51\120\135\133\227\116\135\62\4\333"
+  "\313\313\245\26\356\63\5\15\25\21\324\346\31\326\51\103\267\167\117\3\350\242\355\212\306\62\243\341\5\101\372\142"
+  "\174\36\233\140\241\246\53\3\0\240\373\212\144\163\300\224\12\212\325\46\327\12\46\111\266\2\74\341\353\343\243\331"
+  "\60\223\235\234\212\261\147\44\341\106\255\60\265\113\254\264\47\206\224\344\226\122\343\376\60\225\6\21\152\54\221\114"
+  "\0\367\163\152\172\65\234\114\247\132\344\125\223\206\333\4\163\266\162\111\360\354\331\125\360\224\332\126\73\71\71\74"
+  "\352\344\360\324\236\372\261\154\154\142\232\3\10\75\327\46\162\35\304\225\73\142\134\123\125\33\375\356\347\226\317\127"
+  "\175\164\103\314\376\354\143\122\16\41\263\334\11\63\273\160\265\366\340\265\320\70\134\356\126\346\375\247\226\171\233\353"
+  "\274\224\343\327\250\152\5\233\73\62\135\62\145\271\66\273\63\142\256\206\334\133\270\275\205\333\33\312\370\321\341\23"
+  "\300\214\371\244\65\305\230\241\155\257\7\73\132\331\231\152\51\123\330\337\245\256\375\377\322\370\70\205\215\154\307\275"
+  "\120\350\36\356\40\364\222\343\330\213\255\121\351\241\230\101\43\242\372\45\302\214\63\277\74\132\163\326\355\247\55\202"
+  "\143\262\120\123\135\235\373\150\210\140\326\301\371\51\225\215\206\101\214\51\307\101\246\276\40\56\332\67\235\256\2\74"
+  "\265\163\243\202\21\336\105\60\126\65\123\352\372\162\217\2\16\216\250\113\236\32\373\322\313\145\110\132\306\210\43\364"
+  "\270\72\304\126\56\252\215\244\232\15\341\374\32\0\104\55\321\253\27\367\133\236\121\76\352\166\323\164\273\151\372\344"
+  "\67\115\361\170\247\212\275\166\65\107\70\325\325\65\5\26\76\105\51\36\73\243\172\254\367\50\313\142\227\213\20\200"
+  "\201\173\336\164\164\65\3\375\240\227\301\161\256\45\145\300\30\74\257\264\314\321\10\54\252\17\116\354\233\165\3\226"
+  "\37\334\252\17\156\61\341\367\217\11\6\157\372\307\27\46\260\37\331\142\353\312\356\35\160\361\245\157\123\375\263\346"
+  "\255\154\225\216\325\53\230\136\332\206\124\154\14\370\6\47\373\261\221\13\51\145\277\305\377\123\312\102\110\110\272\316"
+  "\34\375\27\31\173\141\325\161\40\251\64\324\347\47\170\4\246\27\52\170\346\53\327\212\275\71\141\100\56\210\173\231"
+  "\10\321\23\54\255\213\114\5\5\350\144\41\354\203\371\35\47\42\117\141\332\54\353\232\356\346\233\141\262\305\162\212"
+  "\71\377\22\365\264\267\352\366\273\143\3\272\73\0\145\71\355\150\73\243\5\154\112\155\304\106\316\110\2\25\116\6"
+  "\124\272\367\5\112\162\141\314\341\214\302\61\103\53\356\131\301\40\224\342\234\362\131\52\43\124\105\173\105\104\225\156"
+  "\121\2\227\270\204\4\131\55\333\17\353\165\21\277\375\204\40\334\256\105\107\302\232\12\156\345\253\22\100\273\116\24"
+  "\166\62\317\313\265\173\251\222\120\205\27\207\323\175\43\320\131\313\50\111\111\134\333\30\323\30\43\222\227\166\263\240"
+  "\20\225\220\71\130\213\332\145\277\355\2\1\350\266\242\246\3\25\343\5\333\51\251\142\234\21\106\237\331\314\251\151"
+  "\250\57\260\311\112\13\76\367\313\52\223\370\154\10\360\272\224\114\363\175\0\342\360\201\0\345\362\306\364\162\36\366"
+  "\102\137\237\252\232\105\300\77\365\51\311\200\123\200\20\370\167\114\55\126\311\333\241\146\226\326\75\314\61\362\376\135"
+  "\67\374\77\137\305\133\6\252\203\372\53\262\174\120\277\176\212\145\250\247\326\302\327\133\155\70\171\72\76\147\273\24"
+  "\375\266\212\336\140\205\115\272\377\362\77";
+
+/* lib/time.wo (DEFLATEd, org. size 45356) */
+static unsigned char file_l_44[4875] =
+  "\355\135\155\213\343\70\22\376\276\277\42\64\151\230\371\60\215\45\331\216\323\307\162\34\34\307\261\260\167\7\173\160"
+  "\57\54\204\164\342\364\204\315\333\330\316\314\364\374\372\263\35\333\221\124\125\262\44\73\335\163\260\313\322\143\53\52"
+  "\325\243\122\251\44\225\124\362\273\375\161\175\336\245\223\151\261\335\247\77\114\46\357\266\373\323\61\53\46\167\253\254"
+  "\270\233\334\345\247\351\335\344\335\363\356\370\264\334\115\246\145\332\143\231\62\171\267\77\27\223\255\340\357\337\277\207"
+  "\44\373\164\177\314\136\112\252\313\303\205\252\171\16\60\2\234\107\135\274\234\371\313\62\337\56\362\303\362\224\177\74"
+  "\26\213\123\226\176\336\246\137\130\111\277\332\35\127\277\55\52\374\213\347\264\54\360\335\346\174\130\115\246\170\376\107"
+  "\65\367\344\335\151\231\55\367\65\267\356\71\16\337\253\351\131\232\237\167\130\215\363\142\275\333\76\225\30\312\242\322"
+  "\303\347\216\367\45\375\361\222\152\135\126\266\75\74\137\4\270\72\275\110\145\125\351\217\227\124\24\57\170\356\347\121"
+  "\76\40\74\56\251\103\313\335\237\260\162\367\247\201\345\356\322\3\122\156\231\152\131\126\232\145\207\343\135\367\157\247"
+  "\160\365\373\143\375\27\52\135\331\220\333\212\50\77\234\112\216\305\106\156\341\355\361\261\115\266\153\26\43\314\26\116"
+  "\245\231\217\213\342\133\136\51\147\333\317\112\100\202\77\254\216\207\274\150\373\220\222\277\372\363\355\170\110\47\357\322"
+  "\257\27\340\155\312\335\173\143\51\353\145\261\154\312\130\57\137\362\305\366\260\330\37\17\305\307\311\347\145\66\131\356"
+  "\266\317\207\37\303\311\335\257\154\363\153\20\64\377\263\124\172\266\111\37\213\166\335\75\337\351\330\113\314\213\12\77"
+  "\15\373\17\335\323\177\273\247\257\327\302\347\263\353\363\123\164\175\136\207\327\347\215\220\300\260\137\3\166\171\16\272"
+  "\247\277\165\117\373\356\11\100\375\122\342\134\34\226\373\124\301\232\157\277\245\77\362\244\314\73\251\164\143\363\40\67"
+  "\114\56\246\365\17\223\52\361\341\164\56\26\145\216\311\161\263\51\165\344\307\340\362\23\240\11\15\64\41\101\23\31"
+  "\150\22\202\46\66\320\60\116\20\315\114\104\61\101\224\30\210\70\45\206\271\211\50\204\235\240\224\365\344\322\103\56"
+  "\115\303\46\167\277\234\17\130\103\126\42\326\263\376\174\44\262\106\40\353\77\317\51\236\65\6\131\377\225\256\361\254"
+  "\63\130\352\307\63\236\65\1\131\377\222\155\361\254\163\50\201\145\101\252\362\346\274\333\271\352\63\143\36\12\315\270"
+  "\207\106\63\341\241\322\54\364\321\151\26\371\50\65\213\175\264\232\315\134\325\272\24\71\242\327\145\3\342\72\120\12"
+  "\33\321\155\72\273\300\364\73\247\363\207\230\222\37\114\24\21\246\353\231\201\40\306\64\236\316\76\303\264\376\234\21"
+  "\4\325\200\203\53\175\110\52\375\334\103\351\171\340\241\364\234\171\50\75\347\76\112\317\205\217\322\363\320\107\351\171"
+  "\144\124\172\212\312\330\301\110\151\230\72\230\40\245\141\32\242\4\51\15\223\142\204\224\64\204\121\63\120\23\0\15"
+  "\373\117\113\142\274\52\365\16\364\236\364\211\310\13\115\313\317\313\214\310\13\355\312\237\116\124\136\201\224\113\164\137"
+  "\16\15\312\117\324\260\315\43\44\357\216\310\13\255\310\237\316\317\104\136\304\204\244\47\42\57\34\217\377\276\52\210"
+  "\274\260\335\376\166\374\214\347\25\260\335\376\234\256\50\13\146\30\273\111\63\46\270\207\31\23\302\303\214\211\320\303"
+  "\214\211\310\307\214\211\330\307\214\211\231\217\31\23\211\217\31\23\163\37\63\26\6\76\146\54\144\76\146\54\344\76"
+  "\146\54\24\256\146\114\160\314\214\235\227\31\141\32\204\300\114\131\146\40\10\61\173\266\372\110\344\216\60\213\266\45"
+  "\354\211\210\355\155\232\230\141\66\215\130\65\210\4\63\152\124\311\163\314\252\235\163\302\0\205\1\146\330\212\164\377"
+  "\224\22\246\73\144\230\171\73\322\371\71\146\342\114\14\4\146\347\110\202\145\276\252\75\176\117\347\215\144\352\130\263"
+  "\114\211\365\354\317\173\44\167\143\30\5\310\275\50\276\151\66\264\51\70\142\34\311\373\171\271\103\60\104\130\261\353"
+  "\315\256\120\362\336\225\35\5\253\137\203\340\352\375\251\337\357\336\103\370\270\131\157\170\271\32\366\136\62\254\377\106"
+  "\120\371\376\371\137\142\51\14\24\257\256\3\103\162\102\175\270\317\47\367\371\275\130\117\356\37\370\372\261\373\63\271"
+  "\137\377\112\114\14\146\120\13\377\110\344\24\326\71\241\61\271\137\116\356\237\112\30\223\373\177\117\356\377\103\220\41"
+  "\126\345\147\42\53\64\51\377\240\262\102\213\162\277\176\270\337\77\220\60\240\125\271\377\353\343\375\317\217\367\277\20"
+  "\4\260\161\357\37\302\335\216\160\140\44\320\262\334\23\71\231\41\347\305\45\333\171\102\125\57\150\235\145\322\172\137"
+  "\247\247\102\363\300\126\336\376\113\216\335\161\325\70\204\217\131\223\251\111\172\152\66\44\272\204\215\236\260\145\172\2"
+  "\327\23\204\236\20\66\11\65\367\213\77\367\241\332\223\150\367\100\352\364\72\363\103\345\15\256\120\30\263\136\275\273"
+  "\315\224\245\112\310\317\117\62\121\256\23\231\371\26\151\132\127\126\117\332\62\235\345\305\102\224\322\174\110\277\26\351"
+  "\141\275\50\177\132\344\135\142\136\34\263\264\263\46\115\43\46\144\31\115\65\202\366\77\211\177\215\264\205\124\46\354"
+  "\54\267\172\364\52\324\315\254\1\210\243\110\104\135\332\362\260\356\236\323\117\337\56\317\33\12\212\54\35\76\325\163"
+  "\265\111\125\345\166\307\345\232\20\5\125\365\352\207\365\366\363\342\154\43\320\164\227\247\66\50\305\124\143\372\201\131"
+  "\25\337\210\105\52\375\124\340\55\131\276\37\122\102\156\47\320\42\333\160\112\301\356\27\233\33\140\273\162\45\2\255"
+  "\357\201\156\224\245\305\71\73\224\217\272\101\252\225\360\152\221\352\327\326\44\335\310\4\375\156\117\232\62\270\336\251"
+  "\336\334\214\230\173\7\350\211\76\12\370\306\372\276\336\156\66\352\40\334\246\150\3\161\301\224\235\366\151\21\64\357"
+  "\115\257\330\164\275\102\202\125\0\271\24\127\105\151\125\163\163\21\343\347\64\53\26\145\172\243\65\44\342\74\135\345"
+  "\213\342\270\50\366\52\76\25\336\251\100\266\156\325\136\133\357\100\136\210\232\224\252\150\65\345\45\135\146\132\122\226"
+  "\356\57\224\162\147\56\23\57\304\132\142\103\57\247\176\132\55\126\57\253\135\252\45\343\251\237\320\324\172\317\127\113"
+  "\253\166\167\324\224\27\220\262\113\227\247\361\346\101\135\102\244\47\304\172\302\114\117\110\144\333\47\253\207\336\261\342"
+  "\331\74\110\242\44\236\263\40\142\21\227\306\327\135\321\332\227\215\322\310\272\55\44\307\130\235\127\313\52\231\45\311"
+  "\234\47\22\253\347\226\125\333\125\133\3\320\161\151\14\200\271\127\353\14\347\21\53\271\311\214\332\56\41\31\254\112"
+  "\255\64\146\111\34\6\75\366\266\232\174\344\372\0\122\251\255\216\311\257\370\122\263\27\127\262\57\331\362\124\365\134"
+  "\35\172\323\51\110\153\52\265\240\16\13\47\225\220\125\206\172\275\326\153\50\223\111\245\165\25\327\325\202\36\257\224"
+  "\206\120\245\227\202\1\102\320\205\241\50\312\214\55\370\153\41\263\61\104\136\131\1\37\171\43\164\63\223\240\273\374"
+  "\210\232\143\322\16\343\140\76\263\125\131\242\202\65\343\316\172\216\304\325\132\223\221\362\155\65\271\7\32\251\312\130"
+  "\177\125\353\17\364\131\232\361\221\102\103\232\14\7\51\342\250\161\160\127\151\272\111\251\5\103\240\11\245\205\30\41"
+  "\27\237\172\270\124\243\237\225\132\275\375\171\107\260\66\150\100\331\214\314\54\240\117\70\157\36\365\113\350\223\117\113"
+  "\373\111\210\142\45\127\317\113\100\245\214\315\362\151\347\110\356\12\104\120\32\305\243\320\330\213\207\140\45\127\216\226"
+  "\116\356\122\360\325\157\1\347\64\144\173\171\316\177\100\267\150\231\267\202\351\210\164\223\247\112\256\256\140\65\265\264"
+  "\264\52\14\230\75\251\137\44\204\115\174\126\230\300\337\153\145\172\201\243\130\333\106\175\245\124\317\317\51\151\305\7"
+  "\226\214\150\304\213\141\4\65\166\12\123\267\225\265\20\12\227\101\307\334\312\252\4\152\360\154\140\301\142\265\121\212"
+  "\242\357\230\111\23\42\131\104\235\14\236\152\257\314\224\343\136\7\211\344\262\62\152\122\217\247\311\224\265\353\137\165"
+  "\43\123\76\74\253\203\227\312\300\14\22\45\143\154\235\36\366\165\211\135\272\200\375\357\51\133\224\175\272\255\155\123"
+  "\167\61\65\225\365\246\365\263\260\171\145\333\143\125\120\232\313\14\220\231\46\113\22\305\72\73\236\32\51\166\255\137"
+  "\163\227\237\371\324\216\147\140\143\33\160\122\156\22\15\136\157\303\160\106\365\40\143\257\101\54\13\312\242\157\265\207"
+  "\230\151\26\316\302\104\304\141\317\354\372\171\350\32\175\44\274\37\72\300\211\231\164\67\316\112\377\324\70\247\44\211"
+  "\5\246\201\253\365\247\222\65\127\26\46\210\50\364\361\6\163\267\206\375\50\45\307\61\206\322\262\333\360\161\61\161"
+  "\43\46\263\135\64\331\217\41\240\244\205\3\6\12\356\214\50\13\154\157\256\211\221\153\64\65\116\133\174\271\232\231"
+  "\306\123\73\337\215\210\45\135\125\327\372\276\300\314\155\60\263\4\26\123\260\300\317\252\257\300\15\265\214\54\161\107"
+  "\146\315\132\237\33\221\156\364\346\320\114\166\165\374\267\51\324\16\274\275\147\135\335\332\102\66\36\155\267\65\132\351"
+  "\135\66\174\60\367\277\215\67\106\222\50\3\273\44\122\74\231\131\200\226\206\136\160\33\103\217\301\166\123\50\272\141"
+  "\323\142\121\174\253\317\211\52\355\230\147\53\265\41\327\151\136\364\265\144\361\255\212\330\263\334\62\350\233\234\327\205"
+  "\1\7\164\266\122\246\230\311\42\327\145\300\264\202\243\204\330\220\153\246\312\335\140\132\55\0\340\230\345\301\21\331"
+  "\1\64\256\317\75\130\204\241\316\243\167\371\175\3\20\342\173\0\21\175\17\40\22\154\352\77\66\227\150\6\127\202"
+  "\375\225\225\135\65\3\45\163\355\222\262\157\62\202\246\324\202\21\360\310\227\366\205\114\263\134\330\151\145\120\223\345"
+  "\126\364\104\153\130\60\162\152\274\332\122\47\370\357\75\302\65\202\270\22\124\213\127\76\125\275\161\322\302\125\133\320"
+  "\332\60\16\372\75\252\235\260\15\347\106\57\43\261\22\200\256\56\273\261\125\34\332\212\274\147\44\44\344\213\124\267"
+  "\155\273\276\41\361\122\236\171\120\224\217\362\220\243\342\376\274\323\206\300\341\347\17\303\336\175\167\356\277\357\376\35"
+  "\37\61\312\341\161\267\341\243\264\252\342\172\16\31\250\22\217\257\143\270\36\26\32\76\205\263\75\345\147\70\124\147"
+  "\271\360\21\26\45\44\66\353\174\377\111\252\134\102\217\337\320\256\74\61\102\171\272\21\226\375\161\215\317\163\264\211"
+  "\13\245\200\37\134\131\73\14\135\230\206\15\233\3\222\43\205\57\302\353\120\346\346\326\337\102\217\276\254\35\370\161"
+  "\14\145\45\350\356\136\277\241\1\102\232\177\254\306\373\216\247\255\75\107\261\321\246\64\157\113\230\235\137\257\74\51"
+  "\4\15\320\216\213\366\146\356\367\6\167\150\360\170\212\357\326\214\311\257\177\274\61\230\357\127\322\73\270\333\361\273"
+  "\16\322\333\67\264\1\326\306\46\375\137\171\323\103\322\24\263\341\227\227\161\343\30\170\311\367\65\372\350\334\42\304"
+  "\27\237\246\175\334\255\13\277\255\307\366\254\74\203\225\73\144\110\314\360\242\371\125\45\207\356\101\122\274\23\7\336"
+  "\376\372\210\350\335\0\154\161\340\57\131\363\341\222\156\177\307\242\354\300\272\354\66\175\340\222\15\356\5\331\364\341"
+  "\236\5\35\355\210\30\43\60\243\271\122\356\32\42\134\276\266\73\63\235\163\276\12\116\376\75\362\21\270\21\340\115"
+  "\151\363\251\342\275\222\256\173\324\165\245\26\252\245\171\207\267\253\5\123\350\323\153\313\153\25\106\256\210\164\175\240"
+  "\325\31\100\322\136\101\227\135\313\126\361\13\266\211\300\215\267\77\365\155\171\320\323\72\272\330\36\347\162\332\4\110"
+  "\202\336\55\111\304\50\255\315\50\165\7\56\114\314\243\332\122\103\146\335\116\233\264\113\251\157\302\241\12\106\106\266"
+  "\21\116\113\124\253\334\315\55\52\64\251\32\210\257\313\340\20\356\261\222\64\33\133\167\26\37\12\1\215\375\261\151"
+  "\117\131\153\341\301\230\336\326\316\215\214\10\201\213\251\15\252\233\12\74\234\16\23\214\345\270\211\364\62\357\301\162"
+  "\377\233\32\303\170\171\327\43\30\367\175\127\11\40\321\176\155\250\235\234\6\3\7\137\324\327\67\15\376\105\126\177"
+  "\343\172\346\245\43\17\262\225\341\232\231\61\37\32\146\163\351\24\237\361\24\143\77\147\26\367\163\306\17\137\112\175"
+  "\370\72\252\240\207\360\154\317\173\132\104\67\71\124\330\213\325\365\254\220\324\253\321\222\2\313\303\220\216\147\136\35"
+  "\16\253\216\166\20\26\73\141\357\174\20\326\235\5\25\21\322\23\12\50\161\227\216\301\313\31\334\132\12\165\273\224"
+  "\26\251\257\330\320\55\212\24\55\203\331\307\242\102\51\342\250\334\112\104\2\35\354\364\20\75\160\154\37\332\51\327"
+  "\146\134\221\316\347\256\134\307\157\4\341\16\342\325\332\355\260\46\154\112\155\352\220\303\277\63\66\217\170\342\37\362"
+  "\333\147\371\2\353\143\360\144\330\252\66\335\152\257\110\357\141\117\235\13\107\35\300\43\170\274\35\114\73\210\227\266"
+  "\214\360\360\212\45\350\261\354\241\113\20\260\125\223\166\216\0\147\54\314\55\270\336\12\215\341\124\242\157\224\105\170"
+  "\3\230\215\320\254\343\13\175\16\235\71\207\372\73\252\56\326\51\251\171\51\167\232\21\103\313\332\203\316\174\106\304"
+  "\65\340\4\221\34\17\355\342\367\372\105\221\270\231\21\170\6\176\70\204\360\355\41\70\32\123\340\372\122\234\336\375"
+  "\65\60\337\273\344\247\75\224\267\252\376\365\22\77\340\174\50\342\3\263\232\64\17\273\122\111\211\303\40\152\335\134"
+  "\226\173\371\372\121\231\326\70\6\55\56\146\12\307\277\231\251\275\4\125\212\320\350\222\100\210\206\372\315\232\151\165"
+  "\25\252\157\214\106\111\253\233\201\230\360\166\13\153\67\77\117\114\167\7\264\326\210\222\221\274\323\10\116\337\315\134"
+  "\317\222\341\76\315\356\103\57\246\20\17\305\337\101\355\75\16\16\245\225\253\241\371\66\372\353\321\176\352\300\266\32"
+  "\272\363\344\66\325\20\274\257\32\66\120\271\231\111\230\214\300\44\61\363\210\303\21\170\204\146\36\111\60\2\217\236"
+  "\6\231\367\352\225\324\173\347\160\153\367\144\351\5\64\371\205\31\343\16\40\50\17\274\372\151\57\213\202\220\50\112"
+  "\312\360\164\133\102\210\175\44\15\267\64\24\136\115\267\224\70\74\276\156\310\56\357\377\361\155\223\256\201\204\75\23"
+  "\240\76\347\357\230\67\305\172\116\345\344\225\200\333\124\316\34\104\331\206\172\216\167\155\252\256\357\53\53\135\267\230"
+  "\247\134\273\103\257\362\377\37\356\245\234\12\217\271\265\244\220\47\103\30\254\135\250\342\11\116\214\133\13\47\101\350"
+  "\146\236\56\27\3\15\123\251\213\216\352\341\311\175\327\203\33\242\216\265\211\322\365\253\1\306\336\321\67\77\7\263"
+  "\163\162\156\156\206\270\307\60\112\37\102\60\267\110\377\140\204\14\105\257\41\113\135\167\315\26\104\263\37\326\0\201"
+  "\261\30\33\66\321\345\264\153\306\375\142\307\107\157\363\352\70\302\227\64\375\115\335\375\76\251\246\67\57\226\131\121"
+  "\135\20\164\275\45\226\24\153\125\30\161\137\353\11\237\5\122\347\17\315\227\112\266\230\345\43\165\22\114\352\370\321"
+  "\311\155\175\146\21\11\331\41\221\274\100\246\373\174\272\374\230\167\25\253\226\53\146\334\241\157\104\162\130\337\10\221"
+  "\15\127\263\54\147\310\215\33\364\175\317\105\246\335\120\335\246\150\346\41\327\24\174\277\374\252\246\154\366\332\364\243"
+  "\353\23\6\203\242\335\353\276\72\236\17\205\232\124\152\162\256\147\53\323\300\305\11\327\136\44\237\67\121\123\76\36"
+  "\317\131\271\52\322\156\155\76\274\346\41\317\61\256\165\356\22\346\0\130\0\122\0\126\6\300\62\200\226\1\270\14"
+  "\340\145\0\60\3\210\31\200\314\0\146\16\60\163\50\137\200\231\303\0\136\200\231\3\314\34\140\346\0\63\7\230"
+  "\71\300\54\0\146\1\60\13\250\24\0\263\200\161\311\0\263\0\230\305\355\2\217\223\340\326\201\307\172\236\322\6"
+  "\364\35\332\257\255\2\275\250\124\343\34\251\60\306\322\74\15\277\227\304\75\316\321\203\255\230\271\7\72\136\254\144"
+  "\157\70\354\305\160\312\210\103\5\177\373\315\316\366\165\246\276\306\352\153\244\276\152\105\11\365\125\25\124\373\125\326"
+  "\366\65\120\136\333\257\303\266\257\52\52\246\242\142\52\52\246\242\142\52\52\246\242\142\52\52\246\242\142\52\52\25"
+  "\224\212\111\205\244\42\212\214\112\141\16\351\271\70\155\154\165\110\16\3\142\246\260\137\340\274\153\24\255\125\352\331"
+  "\24\327\111\73\152\20\73\10\357\162\245\251\41\161\154\117\234\200\355\13\156\117\314\340\346\207\160\240\6\161\326\63"
+  "\7\231\265\132\53\131\142\27\336\240\275\22\7\211\63\40\265\304\5\371\34\120\47\16\272\2\244\226\314\35\250\103"
+  "\235\172\356\242\345\100\346\163\207\172\103\142\207\152\203\366\232\73\324\172\76\355\277\171\330\320\136\1\44\167\350\141"
+  "\114\100\162\7\354\14\264\30\143\56\135\24\206\45\63\27\175\201\165\347\56\12\203\354\166\60\7\362\166\354\311\256"
+  "\3\155\35\220\11\124\111\30\306\355\232\2\136\13\351\277\114\37\376\245\27\107\326\161\157\0\47\330\13\237\361\351"
+  "\360\31\17\25\315\125\357\115\167\137\177\36\132\273\341\127\131\353\325\353\356\363\310\272\351\132\255\4\63\147\265\111"
+  "\154\325\206\334\266\276\275\332\220\254\31\363\320\33\161\103\275\121\76\32\76\264\166\257\247\66\163\233\13\214\2\102"
+  "\236\41\245\101\362\35\242\215\3\11\136\30\56\303\140\301\324\141\113\20\154\32\131\210\232\123\212\104\135\111\13\266"
+  "\322\373\57\241\203\242\143\66\267\107\335\250\72\352\241\321\121\252\303\155\202\331\134\157\231\3\272\300\254\164\41\362"
+  "\26\136\362\35\252\102\174\313\332\274\272\46\314\106\322\4\76\35\52\4\216\10\101\102\172\361\1\73\237\242\124\146"
+  "\251\265\251\225\12\62\174\143\22\271\231\332\324\342\50\272\267\324\322\371\160\314\257\256\213\160\211\343\251\214\302\312"
+  "\54\101\277\201\165\117\46\167\362\230\305\207\146\336\104\37\30\177\273\312\142\61\21\267\355\33\75\172\46\136\133\26"
+  "\267\354\123\302\134\327\261\206\372\320\256\117\371\217\365\364\2\302\116\264\257\337\245\342\67\253\353\353\233\346\261\346"
+  "\11\221\235\32\45\336\242\15\277\303\51\43\233\337\262\72\257\256\14\174\254\161\72\36\161\322\250\207\345\303\65\160"
+  "\144\362\51\120\316\202\222\56\236\172\254\326\331\314\156\231\354\77\7\11\276\103\105\347\374\226\325\171\175\105\27\43"
+  "\51\272\354\65\146\163\223\326\353\154\340\325\314\276\333\323\11\270\207\71\117\167\351\252\300\256\355\321\216\102\221\347"
+  "\320\120\225\16\373\165\0\71\375\364\246\152\33\15\205\374\372\252\31\217\243\232\334\322\235\67\363\237\62\207\375\261"
+  "\57\67\150\322\144\44\371\260\41\156\327\331\150\156\127\316\207\340\110\306\303\41\254\267\260\150\213\336\267\64\14\234"
+  "\27\226\332\5\67\126\52\155\61\51\353\312\372\116\274\320\301\120\310\257\156\247\4\33\251\37\206\103\364\177\156\173"
+  "\216\116\160\143\104\256\340\366\41\271\202\323\215\153\373\175\7\356\333\331\74\256\31\3\321\124\335\42\65\261\251\233"
+  "\147\40\42\54\11\371\124\134\157\40\42\320\226\150\152\165\273\240\111\244\202\367\356\245\76\27\213\374\346\373\201\240"
+  "\156\61\161\235\153\22\114\135\212\231\121\305\60\123\61\226\247\341\220\323\360\155\166\0\44\261\232\201\10\61\245\317"
+  "\133\336\312\336\206\303\316\205\336\312\246\106\343\330\124\130\73\164\223\335\42\62\144\163\262\131\43\253\214\114\37\343"
+  "\332\131\336\152\44\61\241\56\331\305\216\60\250\347\53\164\371\142\237\143\334\57\277\202\217\304\167\247\233\365\0\224"
+  "\347\366\6\137\343\371\337\21\156\357\70\301\116\211\167\325\266\112\212\220\366\351\36\134\362\153\56\134\156\62\44\122"
+  "\11\241\270\12\311\276\230\53\15\372\165\0\247\246\320\173\371\356\15\233\6\236\230\147\366\322\154\172\176\374\52\6"
+  "\111\225\247\5\126\251\311\314\237\104\260\77\101\15\306\14\373\317\42\164\52\342\373\15\242\321\333\277\151\75\117\47"
+  "\172\137\177\162\10\46\176\377\303\377\0";
 
 /* lib/unistd.wo (DEFLATEd, org. size 25993) */
 static unsigned char file_l_45[1892] =
@@ -4421,54 +4605,53 @@ static unsigned char file_l_45[1892] =
   "\345\226\241\62\271\5\254\230\257\121\23\126\372\115\350\235\372\147\152\167\15\203\4\363\43\217\6\374\366\365\31\257"
   "\272\277\377";
 
-/* l directory (sorted by path) */
 struct memdir directory_l[46] = {
-  { "lib/crt.args.wo", 881, 1, 4765, &file_l_0[0] },
-  { "lib/crt.argv.wo", 876, 1, 4717, &file_l_1[0] },
-  { "lib/crt.void.wo", 450, 1, 1416, &file_l_2[0] },
-  { "lib/crt.wo", 121, 1, 264, &file_l_3[0] },
-  { "lib/ctype.wo", 489, 1, 4203, &file_l_4[0] },
-  { "lib/dirent.wo", 2161, 1, 21870, &file_l_5[0] },
-  { "lib/errno.wo", 1474, 1, 9609, &file_l_6[0] },
-  { "lib/fcntl.wo", 2337, 1, 20902, &file_l_7[0] },
-  { "lib/fenv.wo", 260, 1, 1286, &file_l_8[0] },
-  { "lib/include/NDEBUG/assert.h", 116, 1, 150, &file_l_20[0] },
-  { "lib/include/assert.h", 137, 1, 182, &file_l_9[0] },
-  { "lib/include/ctype.h", 154, 1, 495, &file_l_10[0] },
-  { "lib/include/dirent.h", 504, 1, 1506, &file_l_11[0] },
-  { "lib/include/errno.h", 599, 1, 1694, &file_l_12[0] },
-  { "lib/include/fcntl.h", 715, 1, 2242, &file_l_13[0] },
-  { "lib/include/fenv.h", 317, 1, 780, &file_l_14[0] },
-  { "lib/include/float.h", 278, 1, 665, &file_l_15[0] },
-  { "lib/include/inttypes.h", 557, 1, 3738, &file_l_16[0] },
-  { "lib/include/limits.h", 230, 1, 635, &file_l_17[0] },
-  { "lib/include/locale.h", 154, 1, 215, &file_l_18[0] },
-  { "lib/include/math.h", 417, 1, 1519, &file_l_19[0] },
-  { "lib/include/stdarg.h", 267, 1, 583, &file_l_21[0] },
-  { "lib/include/stdbool.h", 81, 1, 122, &file_l_22[0] },
-  { "lib/include/stddef.h", 100, 1, 178, &file_l_23[0] },
-  { "lib/include/stdint.h", 490, 1, 2186, &file_l_24[0] },
-  { "lib/include/stdio.h", 1054, 1, 3869, &file_l_25[0] },
-  { "lib/include/stdlib.h", 597, 1, 1993, &file_l_26[0] },
-  { "lib/include/string.h", 414, 1, 1854, &file_l_27[0] },
-  { "lib/include/sys.cdefs.h", 113, 1, 191, &file_l_28[0] },
-  { "lib/include/sys.crt.h", 154, 1, 243, &file_l_29[0] },
-  { "lib/include/sys.intrs.h", 612, 1, 3110, &file_l_30[0] },
-  { "lib/include/sys.stat.h", 634, 1, 2073, &file_l_31[0] },
-  { "lib/include/sys.types.h", 150, 1, 414, &file_l_32[0] },
-  { "lib/include/time.h", 457, 1, 1301, &file_l_33[0] },
-  { "lib/include/unistd.h", 453, 1, 1529, &file_l_34[0] },
-  { "lib/include/wasi.api.h", 10409, 1, 48950, &file_l_35[0] },
-  { "lib/include/wasm.h", 2302, 1, 22452, &file_l_36[0] },
-  { "lib/include/wasm_simd128.h", 4173, 1, 44179, &file_l_37[0] },
-  { "lib/include/wchar.h", 159, 1, 292, &file_l_38[0] },
-  { "lib/math.wo", 14260, 1, 168538, &file_l_39[0] },
-  { "lib/stat.wo", 1077, 1, 9195, &file_l_40[0] },
-  { "lib/stdio.wo", 13209, 1, 192049, &file_l_41[0] },
-  { "lib/stdlib.wo", 6320, 1, 70385, &file_l_42[0] },
-  { "lib/string.wo", 2033, 1, 23745, &file_l_43[0] },
-  { "lib/time.wo", 4434, 1, 46152, &file_l_44[0] },
-  { "lib/unistd.wo", 1892, 1, 25993, &file_l_45[0] },
+ { "lib/crt.args.wo", 934, 1, 4907, &file_l_0[0] },
+ { "lib/crt.argv.wo", 926, 1, 4867, &file_l_1[0] },
+ { "lib/crt.void.wo", 498, 1, 1692, &file_l_2[0] },
+ { "lib/crt.wo", 121, 1, 264, &file_l_3[0] },
+ { "lib/ctype.wo", 513, 1, 4126, &file_l_4[0] },
+ { "lib/dirent.wo", 2305, 1, 20924, &file_l_5[0] },
+ { "lib/errno.wo", 1474, 1, 9609, &file_l_6[0] },
+ { "lib/fcntl.wo", 2464, 1, 20004, &file_l_7[0] },
+ { "lib/fenv.wo", 260, 1, 1286, &file_l_8[0] },
+ { "lib/include/NDEBUG/assert.h", 116, 1, 150, &file_l_9[0] },
+ { "lib/include/assert.h", 137, 1, 182, &file_l_10[0] },
+ { "lib/include/ctype.h", 154, 1, 495, &file_l_11[0] },
+ { "lib/include/dirent.h", 504, 1, 1506, &file_l_12[0] },
+ { "lib/include/errno.h", 599, 1, 1694, &file_l_13[0] },
+ { "lib/include/fcntl.h", 715, 1, 2242, &file_l_14[0] },
+ { "lib/include/fenv.h", 317, 1, 780, &file_l_15[0] },
+ { "lib/include/float.h", 278, 1, 665, &file_l_16[0] },
+ { "lib/include/inttypes.h", 557, 1, 3738, &file_l_17[0] },
+ { "lib/include/limits.h", 230, 1, 635, &file_l_18[0] },
+ { "lib/include/locale.h", 154, 1, 215, &file_l_19[0] },
+ { "lib/include/math.h", 417, 1, 1519, &file_l_20[0] },
+ { "lib/include/stdarg.h", 267, 1, 583, &file_l_21[0] },
+ { "lib/include/stdbool.h", 81, 1, 122, &file_l_22[0] },
+ { "lib/include/stddef.h", 100, 1, 178, &file_l_23[0] },
+ { "lib/include/stdint.h", 490, 1, 2186, &file_l_24[0] },
+ { "lib/include/stdio.h", 1088, 1, 3817, &file_l_25[0] },
+ { "lib/include/stdlib.h", 597, 1, 1993, &file_l_26[0] },
+ { "lib/include/string.h", 414, 1, 1854, &file_l_27[0] },
+ { "lib/include/sys.cdefs.h", 113, 1, 191, &file_l_28[0] },
+ { "lib/include/sys.crt.h", 157, 1, 266, &file_l_29[0] },
+ { "lib/include/sys.intrs.h", 612, 1, 3110, &file_l_30[0] },
+ { "lib/include/sys.stat.h", 634, 1, 2073, &file_l_31[0] },
+ { "lib/include/sys.types.h", 150, 1, 414, &file_l_32[0] },
+ { "lib/include/time.h", 457, 1, 1301, &file_l_33[0] },
+ { "lib/include/unistd.h", 460, 1, 1488, &file_l_34[0] },
+ { "lib/include/wasi.api.h", 10409, 1, 48950, &file_l_35[0] },
+ { "lib/include/wasm.h", 2302, 1, 22452, &file_l_36[0] },
+ { "lib/include/wasm_simd128.h", 4547, 1, 43261, &file_l_37[0] },
+ { "lib/include/wchar.h", 159, 1, 292, &file_l_38[0] },
+ { "lib/math.wo", 15163, 1, 160240, &file_l_39[0] },
+ { "lib/stat.wo", 1119, 1, 8940, &file_l_40[0] },
+ { "lib/stdio.wo", 14821, 1, 188440, &file_l_41[0] },
+ { "lib/stdlib.wo", 8274, 1, 82626, &file_l_42[0] },
+ { "lib/string.wo", 2123, 1, 22342, &file_l_43[0] },
+ { "lib/time.wo", 4875, 1, 45356, &file_l_44[0] },
+ { "lib/unistd.wo", 1892, 1, 25993, &file_l_45[0] },
 };
 
 /* end of in-memory archive */
-- 
2.43.0


From 6f115b261f9b295a26a2187ed793779268d86c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 87/97] fix: int repeated in a declaration was accepted

---
 p.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p.c b/p.c
index 6c012c5..12449d7 100644
--- a/p.c
+++ b/p.c
@@ -3482,7 +3482,7 @@ static void parse_base_type(pws_t *pw, node_t *pn)
       case TT_VOID_KW:     ++v; break;
       case TT_CHAR_KW:     ++c; break;
       case TT_SHORT_KW:    ++s; break;
-      case TT_INT_KW:      i = 1; break; /* int int is in older library headers */
+      case TT_INT_KW:      ++i; break;
       case TT_LONG_KW:     ++l; break;
       case TT_SIGNED_KW:   ++sg; break;
       case TT_UNSIGNED_KW: ++ug; break;
-- 
2.43.0


From b64db77e1eeceed75a8443b400da76a8d92432a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 88/97] fix: countof(...) in the body of a macro that has no
 ... of its own refers to the enclosing function

---
 p.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p.c b/p.c
index 12449d7..99b2ccb 100644
--- a/p.c
+++ b/p.c
@@ -2416,7 +2416,7 @@ void patch_macro_template(buf_t *pids, ndbuf_t *ppars, node_t *pn)
     }
   } else if (node_is_etc(pn) && no_etcpars(ppars)) {
     if (etcbound) neprintf(pn, "... or __VA_ARGS__ outside of function call argument list");
-  } else if (node_is_countofetc(pn) && no_etcpars(ppars)) {
+  } else if (etcbound && node_is_countofetc(pn) && no_etcpars(ppars)) {
     size_t pcnt = ndblen(ppars), ecnt = pcnt-(n-1); 
     node_t nd = mknd(); assert(pcnt >= n-1);
     ndset(&nd, NT_LITERAL, pn->pwsid, pn->startpos);
-- 
2.43.0


From 862c69796f4453dac557dc4b8ad93a043d88e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 89/97] fix: a cast to void of a void expression no longer
 drops a value that is not there

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index a2da73d..bd5922f 100644
--- a/c.c
+++ b/c.c
@@ -3000,7 +3000,7 @@ static node_t *compile_cast(node_t *prn, const node_t *ptn, node_t *pan)
   }
   pcn = npnewcode(prn); ndcpy(ndnewbk(pcn), ptn);
   acode_swapin(pcn, pan);
-  if (ptn->ts == TS_VOID) acode_pushin(pcn, IN_DROP);
+  if (ptn->ts == TS_VOID) { if (patn->ts != TS_VOID) acode_pushin(pcn, IN_DROP); }
   else asm_cast(ptn, patn, &pcn->data);
   return pcn;
 }
-- 
2.43.0


From 4fad29579ea9148e98906f93d37e1d5a46b894ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 90/97] fix: stdlib.h can be included more than once

---
 l.c                  | 45 ++++++++++++++++++++++----------------------
 lib/include/stdlib.h |  1 +
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/l.c b/l.c
index c45ecd1..0a630ef 100644
--- a/l.c
+++ b/l.c
@@ -2371,27 +2371,28 @@ static unsigned char file_l_25[1088] =
   "\265\162\252\222\144\45\103\221\106\273\267\72\316\136\313\140\172\303\145\366\246\121\75\56\115\32\135\374\317\156\35\310"
   "\44\340\132\355\4\147\250\2\115\207\50\172\253\336\77\121\224\5\372\45\277\2\260\327\252\36\105\106\217\216\376\5";
 
-/* lib/include/stdlib.h (DEFLATEd, org. size 1993) */
-static unsigned char file_l_26[597] =
-  "\265\225\305\222\343\60\20\206\317\103\357\320\313\216\53\260\214\227\141\146\276\245\144\273\223\121\255\54\145\244\366\140\355"
-  "\273\157\144\205\144\55\103\320\356\376\376\277\305\156\305\260\206\22\65\23\120\20\27\234\70\32\210\133\163\323\163\323"
-  "\217\62\354\160\211\260\162\276\161\334\136\135\330\330\76\71\134\201\27\225\370\321\311\322\322\312\321\21\74\37\307\167"
-  "\26\333\113\47\207\355\235\205\163\170\15\175\377\202\72\215\367\245\147\53\206\335\223\355\155\340\6\222\202\13\152\160"
-  "\151\343\43\345\341\302\356\162\251\173\176\363\256\343\136\163\323\164\333\303\176\36\14\351\42\45\270\7\56\11\56\13"
-  "\105\165\320\230\177\202\57\220\361\253\66\175\372\6\51\224\354\372\250\370\41\373\55\301\110\321\212\301\360\73\154\123"
-  "\265\371\66\163\235\136\60\35\244\354\50\342\15\241\226\220\251\42\21\10\214\124\47\112\225\64\4\126\1\261\251\175"
-  "\32\61\134\222\5\370\167\1\333\74\113\210\37\23\43\54\344\52\315\61\244\111\145\76\125\37\134\304\50\263\212\263"
-  "\343\305\367\371\172\331\207\204\31\254\52\47\344\277\253\57\244\341\135\211\331\204\107\361\127\36\236\221\357\64\62\372"
-  "\246\213\15\151\46\263\350\112\361\311\261\261\267\140\312\314\250\220\101\14\220\70\145\102\250\64\32\254\43\131\207\301"
-  "\225\271\253\242\35\215\30\71\121\217\164\140\224\173\106\241\74\326\350\210\221\305\17\152\261\104\151\52\311\140\61\342"
-  "\15\167\31\210\342\116\41\323\232\303\252\16\45\146\25\206\30\25\146\42\355\206\263\213\204\362\312\33\151\311\162\254"
-  "\271\155\125\12\157\15\141\356\21\151\236\325\240\321\0\251\250\217\300\331\302\321\6\304\255\112\77\23\203\114\247\27"
-  "\3\241\213\175\306\333\72\114\6\354\64\326\141\156\32\276\61\360\156\242\243\270\6\236\207\157\20\164\370\322\330\41"
-  "\373\137\65\334\340\47\246\34\122\31\154\45\233\261\127\141\312\375\214\201\200\52\17\63\373\353\254\135\303\274\155\356"
-  "\10\373\67\250\121\167\56\36\64\244\306\230\307\6\2\133\45\117\4\312\312\266\35\15\126\300\222\272\116\243\341\251"
-  "\32\367\256\323\72\374\232\364\72\45\225\47\321\10\163\36\66\76\6\207\332\74\61\266\216\361\12\231\37\127\362\14"
-  "\372\264\255\146\306\345\234\324\367\363\14\6\53\336\272\60\1\202\47\232\351\133\110\30\27\252\350\13\133\71\32\303"
-  "\272\30\254\364\166\217\111\236\372\17\217\116\116\165\150\66\233\326\367\53";
+/* lib/include/stdlib.h (DEFLATEd, org. size 1955) */
+static unsigned char file_l_26[614] =
+  "\265\225\135\157\332\60\24\206\357\371\25\107\352\115\210\240\164\322\244\115\342\212\165\335\204\104\173\121\206\332\73\344"
+  "\70\47\324\232\143\123\333\341\243\323\376\373\354\70\201\330\205\156\323\64\56\40\370\74\357\173\354\23\37\173\224\302"
+  "\127\24\250\10\207\312\60\316\14\103\15\351\250\327\273\130\53\262\52\11\110\101\261\167\221\143\301\4\302\315\343\364"
+  "\333\362\313\144\72\133\334\337\300\273\160\170\276\270\276\276\231\317\341\352\60\174\373\151\171\275\270\137\336\116\36\341"
+  "\75\214\122\233\240\30\176\164\346\366\371\156\61\233\1\323\220\125\214\233\41\23\156\270\325\335\117\356\76\327\252\253"
+  "\335\207\302\177\172\146\277\106\33\6\155\124\105\15\374\0\46\14\74\127\322\14\100\141\71\206\237\220\263\315\322\214"
+  "\137\203\134\212\125\110\362\67\321\23\174\53\260\363\326\354\5\227\46\236\271\15\154\351\23\121\257\43\75\334\31\124"
+  "\2\162\131\145\34\201\30\131\44\124\12\155\300\361\220\352\376\270\105\334\212\154\234\235\213\327\23\263\0\177\23\70"
+  "\120\147\261\146\52\166\325\106\346\41\64\150\36\122\24\171\344\133\343\374\74\76\250\347\237\21\215\247\46\344\325\177"
+  "\51\257\204\146\53\201\171\307\242\372\47\213\256\117\150\164\360\71\145\342\106\24\21\171\262\221\254\123\26\367\17\164"
+  "\35\70\244\321\210\61\221\122\302\271\244\111\263\163\304\240\335\103\372\45\42\13\205\230\170\315\332\250\330\246\14\154"
+  "\136\211\123\205\36\70\30\234\117\104\62\251\114\264\32\277\373\160\307\174\0\222\264\250\4\355\173\52\322\327\224\23"
+  "\150\103\114\325\331\132\276\210\53\64\50\66\101\175\5\51\135\101\155\237\324\262\275\66\130\6\0\55\363\76\14\207"
+  "\40\244\155\41\1\17\223\371\324\265\117\260\302\114\43\121\364\251\321\371\261\357\270\267\357\256\63\340\136\335\0\172"
+  "\160\242\334\376\335\46\151\37\2\213\120\37\257\365\131\273\132\375\247\14\165\321\63\135\327\122\304\175\343\2\365\223"
+  "\70\325\121\374\30\217\241\372\264\162\337\336\327\117\252\333\317\36\160\77\115\202\201\367\350\62\55\164\244\2\64\346"
+  "\135\212\322\36\53\42\356\317\266\112\61\152\344\226\46\355\241\231\256\267\264\55\322\157\224\133\152\144\231\45\7\252"
+  "\265\330\322\43\327\50\313\114\273\54\72\110\243\377\40\117\63\142\141\227\113\37\223\171\145\144\327\321\67\33\334\172"
+  "\330\373\224\263\114\21\265\267\207\11\343\262\262\262\121\211\132\223\25\306\33\173\271\46\202\321\360\136\50\112\173\377"
+  "\134\136\136\132\323\137";
 
 /* lib/include/string.h (DEFLATEd, org. size 1854) */
 static unsigned char file_l_27[414] =
@@ -4632,7 +4633,7 @@ struct memdir directory_l[46] = {
  { "lib/include/stddef.h", 100, 1, 178, &file_l_23[0] },
  { "lib/include/stdint.h", 490, 1, 2186, &file_l_24[0] },
  { "lib/include/stdio.h", 1088, 1, 3817, &file_l_25[0] },
- { "lib/include/stdlib.h", 597, 1, 1993, &file_l_26[0] },
+ { "lib/include/stdlib.h", 614, 1, 1955, &file_l_26[0] },
  { "lib/include/string.h", 414, 1, 1854, &file_l_27[0] },
  { "lib/include/sys.cdefs.h", 113, 1, 191, &file_l_28[0] },
  { "lib/include/sys.crt.h", 157, 1, 266, &file_l_29[0] },
diff --git a/lib/include/stdlib.h b/lib/include/stdlib.h
index cf06f17..ab35d75 100644
--- a/lib/include/stdlib.h
+++ b/lib/include/stdlib.h
@@ -1,5 +1,6 @@
 /* General utilities */
 
+#pragma once
 #define EXIT_FAILURE 1
 #define EXIT_SUCCESS 0
 #define MB_CUR_MAX 4 /* utf-8 */
-- 
2.43.0


From 16e80c964cd921b2d3ecb179232849de2dd8ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 91/97] fix: nested asm forms: rename locals, compile applied
 asm inside asm

---
 c.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index bd5922f..eab5457 100644
--- a/c.c
+++ b/c.c
@@ -1467,6 +1467,9 @@ static void expr_hoist_locals(node_t *ptn, node_t *pn, henv_t *phe, ndbuf_t *plb
           default:;
         }
       }      
+      for (i = 1 /* skip type */; i < ndlen(pn); ++i) { /* nested asm */
+        expr_hoist_locals(ptn, ndref(pn, i), phe, plb);
+      }
     } break;
     case NT_BLOCK: {
       size_t i;
@@ -3812,8 +3815,9 @@ static node_t *expr_compile(node_t *pn, buf_t *prib, const node_t *ret)
         case INTR_ACODE: {
           size_t i; buf_t apb = mkbuf(sizeof(node_t*));
           node_t *pacn = ndref(pn, 0), *pact;
-          assert(pacn->nt == NT_ACODE && ndlen(pacn) == 1);
+          assert(pacn->nt == NT_ACODE && ndlen(pacn) >= 1);
           pact = ndref(pacn, 0); assert(pact->nt == NT_TYPE);
+          pacn = expr_compile(pacn, prib, NULL); /* may have nested asm */
           for (i = 1; i < ndlen(pn); ++i) 
             *(node_t**)bufnewbk(&apb) = expr_compile(ndref(pn, i), prib, NULL);
           pcn = compile_acapp(pn, pacn, &apb);
@@ -4005,6 +4009,11 @@ static node_t *expr_compile(node_t *pn, buf_t *prib, const node_t *ret)
       }
     } break;
     case NT_ACODE: {
+      size_t i;
+      for (i = 1 /* skip type */; i < ndlen(pn); ++i) { /* nested asm */
+        node_t *psn = ndref(pn, i), *pan = expr_compile(psn, prib, NULL);
+        if (pan != psn) ndswap(psn, pan);
+      }
       pcn = pn;
     } break;
     /* statements */
-- 
2.43.0


From b3fff02d4e7117bd8058df525062f4fdaa5aba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 92/97] fix: asm: macro parameters in nested asm; refuse
 unqualified globals and leftover immediate names

---
 c.c |  9 +++++++++
 p.c | 11 +++++++++++
 2 files changed, 20 insertions(+)

diff --git a/c.c b/c.c
index eab5457..166d163 100644
--- a/c.c
+++ b/c.c
@@ -4010,6 +4010,15 @@ static node_t *expr_compile(node_t *pn, buf_t *prib, const node_t *ret)
     } break;
     case NT_ACODE: {
       size_t i;
+      for (i = 0; i < icblen(&pn->data); ++i) {
+        inscode_t *pic = icbref(&pn->data, i);
+        switch (instr_sig(pic->in)) {
+          case INSIG_I32: case INSIG_I64: case INSIG_F32: case INSIG_F64:
+          case INSIG_LANEIDX: case INSIG_MEMARG_LANEIDX: case INSIG_LANEIDX16:
+            if (pic->id) neprintf(pn, "asm: constant expected (got %s)", symname(pic->id));
+          default:;
+        }
+      }
       for (i = 1 /* skip type */; i < ndlen(pn); ++i) { /* nested asm */
         node_t *psn = ndref(pn, i), *pan = expr_compile(psn, prib, NULL);
         if (pan != psn) ndswap(psn, pan);
diff --git a/p.c b/p.c
index 99b2ccb..1bed6c2 100644
--- a/p.c
+++ b/p.c
@@ -2473,6 +2473,9 @@ void patch_macro_template(buf_t *pids, ndbuf_t *ppars, node_t *pn)
         }
       }
     }
+    for (i = 1 /* skip type */; i < ndlen(pn); ++i) { /* nested asm */
+      patch_macro_template(pids, ppars, ndref(pn, i));
+    }
   } else {
     size_t i, j;
     for (i = 0; i < ndlen(pn); /* ins or bump */) {
@@ -3117,6 +3120,14 @@ static void parse_asm_instr(pws_t *pw, node_t *pan)
       default:
         reprintf(pw, pw->pos, "inline assembly: instruction not supported");     
     } 
+    switch (in) {
+      case IN_GLOBAL_GET: case IN_GLOBAL_SET:
+      case IN_CALL: case IN_RETURN_CALL: 
+      case IN_REF_FUNC: case IN_REF_DATA: 
+        if (!pic->id || !pic->arg2.mod) /* must be relocatable */
+          reprintf(pw, pw->pos, "inline assembly: module:name expected");
+      default:;
+    }
     cbfini(&cb);
   }
 }
-- 
2.43.0


From e73a11b4d1891b9bb93593e23c5bf928dddd0713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:19 +0000
Subject: [PATCH 93/97] fix: don't fold address constants into load offsets
 that could wrap around

---
 c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 166d163..e857ee4 100644
--- a/c.c
+++ b/c.c
@@ -4277,7 +4277,8 @@ static void fundef_peephole(node_t *pcn, int optlvl)
           if (pprevi->in == IN_I32_ADD && ppprei->in == IN_I32_CONST) {
             unsigned long long n = pthisi->arg.u & 0xFFFFFFFFU;
             long long off = (long long)((unsigned long long)ppprei->arg.i << 32) >> 32; /* may be negative */
-            if (off >= 0 && (n + (unsigned long long)off) < 0xFFFFFFFFU) { 
+            /* offsets do not wrap around; no data below g_sdbaddr, so it doesn't matter for small ones */
+            if (off >= 0 && (n + (unsigned long long)off) < g_sdbaddr) { 
               pthisi->arg.u += (unsigned long long)off;
               icbrem(picb, i-2);
               icbrem(picb, i-2);
-- 
2.43.0


From 1014260c44515b4c16267b35f7661bfe31e9f4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 94/97] fix: initialized data may hold addresses of any data,
 in any order of use and in cycles

---
 w.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/w.c b/w.c
index 27782ab..d29f91e 100644
--- a/w.c
+++ b/w.c
@@ -3975,6 +3975,7 @@ size_t watify_wat_module(wat_module_t* pm)
   cbuf_t dseg = mkcb(); size_t i;
   buf_t dpmap = mkbuf(sizeof(dpme_t));
   buf_t table = mkbuf(sizeof(dpme_t));
+  buf_t patches = mkbuf(sizeof(inscode_t)); /* ref.data/data.put_ref pairs, offsets in dseg */
   dsmebuf_t dsmap; dsmebinit(&dsmap);
   
   /* reverse exports so leafs are processed before non-leafs */
@@ -4015,31 +4016,25 @@ size_t watify_wat_module(wat_module_t* pm)
         align = pd->align, n = addr % align;
         if (n > 0) addr += align - n;
         if (n > 0) bufresize(&dseg, buflen(&dseg) + (align-n));
-        if (icblen(&pd->code) > 0) { /* patch pd->data */
-          size_t i; cbuf_t cb = mkcb(); bool gotarg = false;
+        if (icblen(&pd->code) > 0) { /* pd->data needs addresses of other segments */
+          size_t i; bool gotarg = false;
           for (i = 0; i < icblen(&pd->code); ++i) {
-            modid_t mi; dpme_t *pdpme; size_t off; 
-            inscode_t *pic = icbref(&pd->code, i);
+            inscode_t *pic = icbref(&pd->code, i), *ppc; size_t off; 
             if (!gotarg && pic->in == IN_REF_DATA) {
-              unsigned address;
-              mi.mod = pic->arg2.mod; mi.id = pic->id;
-              pdpme = bufsearch(&dpmap, &mi, &modid_cmp); /* linear, still adding to it */
-              if (!pdpme) eprintf("internal error: undefined ref in data: $%s:%s", 
-                mi.mod ? symname(mi.mod) : "?", mi.id ? symname(mi.id) : "?");
-              address = (unsigned)((long long)pdpme->address + pic->arg.i);
-              bufclear(&cb); binuint(address, &cb); /* wasm32 */
+              ppc = bufnewbk(&patches); *ppc = *pic;
               gotarg = true;
             } else if (gotarg && pic->in == IN_DATA_PUT_REF) {
               off = (size_t)pic->arg.u; assert(pic->id == 0);
               if (off % 4 != 0 || off + 4 > cblen(&pd->data)) /* wasm32 */
                 eprintf("internal error: cannot patch data: bad offset %lu", (unsigned long)off);
-              memcpy(cbdata(&pd->data) + off, cbdata(&cb), 4); /* wasm32 */
+              ppc = bufnewbk(&patches); *ppc = *pic;
+              ppc->arg.u = buflen(&dseg) + off;
               gotarg = false;
             } else {
               eprintf("internal error in data patch");
             }
           }
-          cbfini(&cb);
+          if (gotarg) eprintf("internal error in data patch");
         }
         cbcat(&dseg, &pd->data);
         curaddr = addr + buflen(&pd->data);
@@ -4057,6 +4052,19 @@ size_t watify_wat_module(wat_module_t* pm)
   /* prepare dpmap for binary search */
   bufqsort(&dpmap, &modid_cmp);
   
+  /* all data segments have addresses now, patch references to them in data */
+  for (i = 0; i+1 < buflen(&patches); i += 2) {
+    inscode_t *prc = bufref(&patches, i), *ppc = bufref(&patches, i+1);
+    modid_t mi; dpme_t *pdpme; cbuf_t cb = mkcb();
+    mi.mod = prc->arg2.mod; mi.id = prc->id;
+    pdpme = bufbsearch(&dpmap, &mi, &modid_cmp);
+    if (!pdpme) eprintf("internal error: undefined ref in data: $%s:%s", 
+      mi.mod ? symname(mi.mod) : "?", mi.id ? symname(mi.id) : "?");
+    binuint((unsigned)((long long)pdpme->address + prc->arg.i), &cb); /* wasm32 */
+    memcpy(cbdata(&dseg) + (size_t)ppc->arg.u, cbdata(&cb), 4); /* wasm32 */
+    cbfini(&cb);
+  }
+  
   /* patch IN_REF_{DATA,FUNC}s, memory export, zero globals */
   for (i = 0; i < watieblen(&pm->exports); ++i) {
     watie_t *pe = watiebref(&pm->exports, i);
@@ -4129,6 +4137,7 @@ size_t watify_wat_module(wat_module_t* pm)
   }
   
   cbfini(&dseg);
+  buffini(&patches);
   dsmebfini(&dsmap);
   buffini(&dpmap);
   buffini(&table);
-- 
2.43.0


From 3c1ab9b4143b63367d9273a94ecce52f1ae34da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 95/97] fix: keep payloads of NaN constants in object text

---
 l.c | 18 ++++++++++++------
 w.c | 30 +++++++++++++++++++++++++++---
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/l.c b/l.c
index 0a630ef..6e18950 100644
--- a/l.c
+++ b/l.c
@@ -334,8 +334,8 @@ char *udtohex(unsigned long long uval, char *buf) /* needs 32 chars (25 chars, r
   int exp2 = (int)((uval >> 52ULL) & 0x07FFULL);
   unsigned long long mant = (uval & 0xFFFFFFFFFFFFFULL);
   if (exp2 == 0x7FF) {
-    /* print as canonical NaN; todo: WASM allows :0xHHHHHHHHHH suffix! */
-    if (mant != 0ULL) strcpy(buf, dneg ? "-nan" : "+nan");
+    if (mant == 0x8000000000000ULL) strcpy(buf, dneg ? "-nan" : "+nan"); /* canonical */
+    else if (mant != 0ULL) sprintf(buf, dneg ? "-nan:0x%llx" : "+nan:0x%llx", mant);
     else strcpy(buf, dneg ? "-inf" : "+inf");
   } else {
     size_t i = 0, j; int val, vneg = false, dig, mdigs;
@@ -365,8 +365,11 @@ unsigned long long hextoud(const char *buf)
   if (strcmp(buf, "inf") == 0) {
     return dneg ? 0xFFF0000000000000ULL : 0x7FF0000000000000ULL;
   } else if (strcmp(buf, "nan") == 0) {
-    /* read canonical NaN; todo: WASM allows :0xHHHHHHHHHH suffix! */
     return dneg ? 0xFFF8000000000000ULL : 0x7FF8000000000000ULL;
+  } else if (strncmp(buf, "nan:0x", 6) == 0) {
+    char *e; unsigned long long mant = strtoull(buf+6, &e, 16);
+    if (isxdigit(buf[6]) && *e == 0 && mant != 0ULL && mant <= 0xFFFFFFFFFFFFFULL)
+      return (dneg ? 0xFFF0000000000000ULL : 0x7FF0000000000000ULL) | mant;
   } else {
     int exp2 = 0; unsigned long long mant = 0ULL;
     int ldig, val, vneg, dig, mdigs;
@@ -406,8 +409,8 @@ char *uftohex(unsigned uval, char *buf) /* needs 32 chars (17 chars, rounded up)
   int exp2 = (int)((uval >> 23U) & 0x0FFU);
   unsigned mant = (uval & 0x7FFFFFU);
   if (exp2 == 0xFF) {
-    /* print as canonical NaN; todo: WASM allows :0xHHHHHH suffix! */
-    if (mant != 0UL) strcpy(buf, dneg ? "-nan" : "+nan");
+    if (mant == 0x400000U) strcpy(buf, dneg ? "-nan" : "+nan"); /* canonical */
+    else if (mant != 0U) sprintf(buf, dneg ? "-nan:0x%x" : "+nan:0x%x", mant);
     else strcpy(buf, dneg ? "-inf" : "+inf");
   } else {
     size_t i = 0, j; int val, vneg = false, dig, mdigs;
@@ -435,10 +438,13 @@ unsigned hextouf(const char *buf)
   if (*buf == '-') ++buf, dneg = true;
   else if (*buf == '+') ++buf;
   if (strcmp(buf, "inf") == 0) {
-    /* read canonical NaN; todo: WASM allows :0xHHHHHH suffix! */
     return dneg ? 0xFF800000U : 0x7F800000U;
   } else if (strcmp(buf, "nan") == 0) {
     return dneg ? 0xFFC00000U : 0x7FC00000U;
+  } else if (strncmp(buf, "nan:0x", 6) == 0) {
+    char *e; unsigned long long mant = strtoull(buf+6, &e, 16);
+    if (isxdigit(buf[6]) && *e == 0 && mant != 0ULL && mant <= 0x7FFFFFULL)
+      return (dneg ? 0xFF800000U : 0x7F800000U) | (unsigned)mant;
   } else {
     int exp2 = 0; unsigned mant = 0UL;
     int ldig, val, vneg, dig, mdigs;
diff --git a/w.c b/w.c
index d29f91e..8eebe4b 100644
--- a/w.c
+++ b/w.c
@@ -2315,6 +2315,8 @@ static int fetchline(sws_t *pw, char **ptbase, int *pendi)
 #define state_10ddd 48
 #define state_10dddd 49
 #define state_10ddddd 50
+#define state_nan 51
+#define state_nan_payload 52
 static wt_t lex(sws_t *pw, cbuf_t *pcb)
 {
   char *tbase = cbdata(&pw->chars);
@@ -2897,11 +2899,33 @@ static wt_t lex(sws_t *pw, cbuf_t *pcb)
           return WT_EOF;
         } else if (c == 'n') {
           cbputc(c, pcb);
-          state = 40; continue;
+          state = state_nan; continue;
         } else {
           unreadchar();
           return WT_EOF;
         }
+      case state_nan:
+        readchar();
+        if (c == EOF) {
+          return WT_FLOAT;
+        } else if (c == ':') {
+          cbputc(c, pcb);
+          state = state_nan_payload; continue;
+        } else {
+          unreadchar();
+          return WT_FLOAT;
+        }
+      case state_nan_payload:
+        readchar();
+        if (c == EOF) {
+          return WT_FLOAT;
+        } else if ((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f') || c == 'x') {
+          cbputc(c, pcb);
+          state = state_nan_payload; continue;
+        } else {
+          unreadchar();
+          return WT_FLOAT;
+        }
       case 42:
         return WT_BCSTART;
       case 43:
@@ -3070,14 +3094,14 @@ static void scan_integer(sws_t *pw, const char *s, numval_t *pv)
 static float scan_float(sws_t *pw, const char *s)
 {
   unsigned u = hextouf(s);
-  if (u == (unsigned)-1) seprintf(pw, "invalid float literal");
+  if (u == (unsigned)-1 && !streql(s, "-nan:0x7fffff")) seprintf(pw, "invalid float literal");
   return as_float(u);
 }
 
 static double scan_double(sws_t *pw, const char *s)
 {
   unsigned long long u = hextoud(s);
-  if (u == (unsigned long long)-1LL) seprintf(pw, "invalid double literal");
+  if (u == (unsigned long long)-1LL && !streql(s, "-nan:0xfffffffffffff")) seprintf(pw, "invalid double literal");
   return as_double(u);
 }
 
-- 
2.43.0


From b174f6ecc3a7cd74c9eded66646af6c90be3a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:16 +0000
Subject: [PATCH 96/97] fix: fgets returns NULL when a read error ends the line

---
 l.c             | 704 ++++++++++++++++++++++++------------------------
 lib/src/stdio.c |   2 +-
 2 files changed, 353 insertions(+), 353 deletions(-)

diff --git a/l.c b/l.c
index 6e18950..041d901 100644
--- a/l.c
+++ b/l.c
@@ -3594,8 +3594,8 @@ static unsigned char file_l_40[1119] =
   "\136\350\203\141\161\342\130\326\51\134\160\275\272\237\204\74\224\156\334\317\55\344\377\305\376\267\363\13\215\50\145\130"
   "\267\227\136\132\370\273\21\316\144\231\137\61\356\25\343\346\143\34\123\220\34\325\206\240\263\42\252\355\276\374\13";
 
-/* lib/stdio.wo (DEFLATEd, org. size 188440) */
-static unsigned char file_l_41[14821] =
+/* lib/stdio.wo (DEFLATEd, org. size 188583) */
+static unsigned char file_l_41[14829] =
   "\355\175\113\223\333\70\262\356\376\374\212\12\267\26\335\147\302\35\44\370\224\117\314\342\154\116\304\154\146\165\67\67"
   "\342\106\124\310\22\125\246\133\105\351\210\124\225\335\277\376\122\24\111\1\310\4\220\40\101\225\44\153\302\63\143\321"
   "\44\236\211\104\76\276\314\374\375\165\273\72\154\262\247\131\131\255\362\355\177\74\75\375\236\277\356\266\373\352\351\323"
@@ -3711,355 +3711,355 @@ static unsigned char file_l_41[14821] =
   "\147\73\2\44\371\127\6\110\272\5\374\256\5\320\26\303\200\23\301\24\102\26\11\102\135\357\243\24\56\132\225\227"
   "\143\243\44\54\142\40\36\224\376\100\252\273\103\252\253\201\166\103\140\165\172\366\137\212\354\337\340\212\201\30\65\2"
   "\40\115\74\63\245\67\131\226\41\20\170\244\263\51\235\314\141\236\276\352\124\357\13\324\103\327\264\146\347\376\175\16"
-  "\243\213\253\275\132\120\334\71\252\334\231\106\173\105\231\177\112\117\355\170\260\256\243\167\24\173\55\222\217\76\262\367"
-  "\334\110\366\36\354\64\222\111\173\103\314\312\320\167\62\70\35\43\222\244\264\60\132\267\311\370\112\25\226\341\262\176"
-  "\270\162\220\243\155\210\257\202\244\223\271\101\356\114\356\247\163\232\155\310\336\117\147\334\170\361\72\121\71\234\220\123"
-  "\130\220\56\100\73\343\140\151\35\236\145\26\301\112\223\373\343\120\210\52\361\351\267\173\115\302\145\75\3\123\44\256"
-  "\155\104\241\175\202\147\265\145\150\256\17\367\237\50\341\264\33\323\245\301\244\76\310\150\175\27\251\73\66\326\20\177"
-  "\202\232\251\54\276\66\54\371\113\72\61\260\335\132\260\31\77\150\227\322\330\0\13\2\271\57\255\156\153\231\61\140"
-  "\10\372\43\35\244\304\353\307\140\27\123\114\66\162\17\25\10\316\35\104\276\273\74\103\156\213\114\71\252\141\60\60"
-  "\326\330\155\56\47\177\170\24\13\205\302\324\362\310\61\7\120\265\305\55\362\355\357\323\0\216\11\206\270\147\373\374"
-  "\45\57\10\226\231\346\243\133\256\272\244\220\165\260\154\113\74\262\171\202\372\105\200\75\235\66\301\234\116\355\26\35"
-  "\240\32\204\135\70\66\303\323\220\361\130\10\30\3\34\256\247\116\214\104\204\156\70\101\262\333\15\233\244\232\306\247"
-  "\313\123\346\353\362\224\35\277\355\5\213\372\357\130\110\201\62\341\261\273\65\70\76\334\20\275\26\273\261\61\45\212"
-  "\153\151\130\171\33\345\164\172\47\214\213\254\235\323\210\306\250\235\341\175\277\330\75\347\261\203\262\216\216\341\316\232"
-  "\41\72\260\2\115\137\316\112\41\255\214\3\47\41\307\22\145\151\4\173\76\340\230\16\316\64\142\132\342\272\241\53"
-  "\300\152\314\61\76\152\156\15\24\214\117\143\134\325\11\44\307\207\66\51\337\302\13\127\110\211\46\51\220\362\241\51"
-  "\205\334\325\201\373\100\150\324\370\54\76\16\212\372\270\60\17\142\171\200\327\166\150\131\242\353\53\235\50\263\327\205"
-  "\167\176\174\121\253\317\27\54\203\210\224\237\162\301\100\76\236\323\43\242\254\122\244\245\137\5\366\341\14\143\122\173"
-  "\140\162\236\377\161\122\10\260\174\124\331\146\243\107\42\36\155\27\202\75\103\260\204\264\317\26\253\357\207\122\25\332"
-  "\353\16\47\121\231\160\22\343\321\345\323\124\135\136\17\304\242\172\112\45\206\73\42\247\305\277\304\175\241\211\122\341"
-  "\6\361\1\101\36\67\143\270\261\12\370\166\227\66\75\165\226\201\133\101\167\262\274\102\343\307\243\52\141\117\150\142"
-  "\341\330\10\167\205\321\172\340\355\10\124\215\215\133\111\145\243\210\231\107\257\227\161\377\252\1\47\36\347\314\201\23"
-  "\217\77\125\330\164\311\22\56\74\323\132\302\125\174\132\36\246\311\326\6\4\7\140\275\327\114\364\170\323\161\23\75"
-  "\376\44\203\360\365\162\162\177\207\2\103\207\172\70\373\354\75\57\270\252\224\247\337\212\1\71\103\71\70\23\372\335"
-  "\236\105\217\124\226\141\212\333\336\245\233\370\203\265\166\27\325\333\143\377\346\265\366\361\276\336\317\341\120\255\135\217"
-  "\1\337\155\45\24\170\375\300\300\152\317\351\164\224\336\105\114\32\67\111\336\50\363\32\171\347\155\306\41\113\304\234"
-  "\50\52\33\271\164\127\240\133\222\332\146\112\52\345\255\51\107\156\215\366\272\353\63\253\34\327\14\241\306\124\303\33"
-  "\55\256\273\272\311\67\241\252\111\373\300\60\53\220\56\367\165\273\312\224\301\11\152\44\36\263\57\164\22\32\135\332"
-  "\321\264\76\356\363\23\70\172\60\132\37\14\327\7\303\363\343\61\125\20\55\223\260\272\111\72\333\152\141\270\47\311"
-  "\171\61\47\265\32\30\305\303\123\342\211\363\354\117\316\46\377\172\54\5\236\221\115\73\341\360\373\277\273\340\250\41"
-  "\17\303\44\26\72\230\156\44\140\156\172\311\43\140\221\355\245\333\206\341\210\165\154\42\54\267\31\232\367\114\221\121"
-  "\217\233\304\221\365\311\32\171\13\335\6\56\242\320\342\143\320\163\154\363\65\127\50\66\242\324\62\270\240\340\24\16"
-  "\207\157\131\36\276\170\364\341\33\135\203\204\216\323\323\321\260\4\325\17\250\31\3\46\165\140\251\10\321\66\235\122"
-  "\237\337\333\76\324\17\230\302\360\14\323\130\153\60\62\316\366\376\104\306\63\167\231\121\202\112\345\260\14\6\77\267"
-  "\241\132\44\263\164\175\331\112\23\206\364\317\251\165\115\77\54\105\32\334\241\24\356\220\155\50\165\150\353\146\323\16"
-  "\3\144\261\72\12\40\257\365\217\355\322\372\236\367\206\206\225\273\254\102\314\154\75\135\223\121\316\364\110\147\37\1"
-  "\77\371\226\141\0\274\20\113\304\214\353\275\67\44\52\45\244\230\142\241\323\225\64\320\105\70\33\251\376\244\103\143"
-  "\100\370\100\145\376\226\5\167\77\152\241\320\144\114\43\173\346\57\5\355\21\72\215\335\146\325\302\114\13\262\145\301"
-  "\302\260\140\266\220\300\13\74\64\211\352\272\73\37\12\20\210\204\42\332\127\32\113\211\150\174\326\124\220\315\313\347"
-  "\355\262\172\136\345\57\171\45\6\60\176\43\130\210\226\337\64\265\245\332\351\247\326\151\102\10\255\162\1\22\33\72"
-  "\356\225\117\170\306\375\135\277\74\253\154\171\173\313\223\134\154\171\276\145\77\176\221\345\31\132\152\312\74\236\171\62"
-  "\305\54\153\376\60\140\232\27\230\156\34\115\61\335\304\33\63\133\173\332\57\253\175\261\311\212\266\247\336\300\334\133"
-  "\326\73\33\364\342\7\305\350\134\162\317\324\251\146\4\77\203\220\0\1\317\26\323\166\256\173\114\314\120\43\174\142"
-  "\320\100\245\50\317\322\224\2\154\200\304\117\314\157\243\315\207\155\216\320\260\113\207\255\113\142\121\42\51\351\65\264"
-  "\265\250\266\271\202\254\324\156\13\35\200\115\203\175\312\21\203\344\211\236\324\4\110\15\360\125\154\275\220\20\10\134"
-  "\261\126\131\107\162\165\335\146\261\314\35\162\200\256\40\171\217\165\76\75\343\141\12\161\33\5\102\330\271\52\21\222"
-  "\220\343\35\327\45\162\243\144\120\74\327\142\350\72\333\13\144\334\144\152\26\330\143\276\372\1\370\145\315\125\305\147"
-  "\57\75\142\107\47\116\324\115\41\214\256\113\75\157\250\212\165\34\231\252\101\220\70\132\27\274\256\315\50\56\353\152"
-  "\350\272\255\363\115\66\361\252\165\114\142\55\127\270\241\46\132\63\54\137\163\262\36\11\16\37\251\74\107\245\362\344"
-  "\13\355\250\363\325\320\314\342\57\34\44\4\23\364\54\343\217\207\244\136\74\345\11\62\146\60\63\25\12\150\366\252"
-  "\346\23\242\302\265\52\53\123\32\306\34\201\303\117\232\112\161\125\126\252\324\352\352\264\347\242\113\64\36\347\40\325"
-  "\233\273\271\10\247\216\231\324\302\144\265\370\272\311\216\55\34\333\74\366\162\354\367\70\22\223\320\267\22\20\344\112"
-  "\206\247\216\52\265\53\317\255\160\277\31\6\304\354\7\344\307\362\210\374\130\36\22\103\207\24\222\206\24\330\14\311"
-  "\302\37\31\221\172\17\47\352\75\46\365\36\251\172\327\3\304\24\332\210\211\151\254\153\106\156\315\66\326\117\153\13"
-  "\266\61\1\17\40\237\154\170\170\135\34\330\323\140\327\307\222\256\331\353\266\252\127\261\45\210\365\40\367\270\365\371"
-  "\154\373\167\114\20\107\25\263\20\110\41\227\304\107\50\165\142\102\346\327\105\51\321\313\173\276\252\276\111\160\303\263"
-  "\274\252\14\314\72\267\334\76\130\111\302\350\337\113\255\254\272\375\113\374\335\24\302\341\161\245\365\350\317\303\150\237"
-  "\175\335\111\164\274\336\31\357\103\337\170\37\6\366\330\277\330\175\302\233\227\315\366\153\57\123\354\253\57\345\156\46"
-  "\153\200\137\333\107\252\127\265\132\145\373\121\51\177\104\350\167\275\233\231\254\22\274\332\246\170\145\5\204\256\206\364"
-  "\314\271\125\164\206\315\317\152\313\346\216\327\7\111\362\272\70\236\116\340\106\162\277\236\150\23\35\71\277\314\331\176"
-  "\137\154\277\64\377\313\263\304\232\57\354\306\17\126\32\103\137\322\276\265\257\141\235\140\112\363\240\216\365\273\175\272"
-  "\27\317\241\63\265\360\273\312\367\331\262\352\30\114\375\31\377\337\77\124\232\0\252\112\204\221\253\324\227\240\345\0"
-  "\304\304\151\20\13\200\361\213\105\363\136\360\123\241\65\135\362\257\323\140\240\332\35\275\65\253\231\211\306\174\267\64"
-  "\146\22\330\21\135\357\170\173\16\310\5\365\70\333\324\263\235\122\162\246\176\300\311\13\207\237\74\333\334\325\16\20"
-  "\316\267\176\362\370\145\136\332\154\43\24\61\36\147\217\172\366\174\346\115\165\261\246\51\375\142\45\237\253\310\366\134"
-  "\175\154\372\323\113\234\253\336\114\11\240\207\274\22\241\272\303\340\71\102\14\253\251\262\71\115\124\276\357\321\277\322"
-  "\337\266\34\222\362\161\335\336\357\165\233\14\277\156\143\133\266\60\76\1\331\343\272\175\234\275\273\277\156\123\333\163"
-  "\5\3\112\150\155\334\364\165\253\274\111\345\124\173\352\4\64\52\242\264\213\66\231\331\160\150\14\170\62\14\302\102"
-  "\317\45\244\35\77\145\260\330\111\350\276\103\114\166\177\57\115\270\51\254\63\172\65\245\7\343\43\62\76\130\272\246"
-  "\235\61\264\70\41\2\40\101\142\131\242\230\65\21\65\317\347\65\372\313\112\0\365\206\16\100\4\315\321\6\200\267"
-  "\44\102\270\221\226\64\271\177\377\42\243\52\224\273\102\276\62\346\266\127\306\370\124\230\67\163\145\70\224\271\20\161"
-  "\374\357\45\151\135\64\162\207\376\62\341\332\277\324\175\241\30\2\242\124\220\356\324\300\247\240\14\77\104\371\101\142"
-  "\77\227\3\61\47\232\352\231\52\320\150\363\167\364\362\131\252\200\1\74\242\314\350\3\43\345\370\341\171\260\350\246"
-  "\4\356\113\123\12\125\255\40\244\213\55\35\121\222\16\351\25\272\120\3\246\253\63\320\137\75\102\104\157\131\355\253"
-  "\355\101\310\241\324\54\110\175\172\165\35\362\234\263\146\115\3\221\312\52\51\310\152\373\221\75\102\6\117\336\164\24"
-  "\47\121\72\300\111\224\340\25\200\341\105\120\22\0\260\133\214\301\353\152\324\212\302\46\10\200\270\321\206\252\32\143"
-  "\5\334\315\210\134\6\277\232\340\153\35\222\23\62\252\130\312\175\103\251\341\154\37\171\143\222\143\227\325\317\135\366"
-  "\45\57\27\233\342\360\212\134\51\372\270\62\71\22\57\262\216\105\32\57\327\76\174\351\152\271\126\147\317\57\155\242"
-  "\215\116\144\122\155\67\333\367\154\157\246\47\376\105\327\24\75\204\106\156\41\124\340\303\150\244\243\15\21\5\251\222"
-  "\17\254\204\353\142\104\220\24\320\21\134\31\150\107\104\130\2\3\256\226\75\26\206\274\330\346\334\241\107\371\151\345"
-  "\100\176\42\241\112\327\366\250\122\351\347\267\354\7\204\221\256\171\30\151\221\275\210\157\140\270\122\251\323\342\67\337"
-  "\263\6\236\232\43\63\314\300\123\163\26\312\324\10\115\205\70\323\71\41\347\244\77\50\13\145\114\310\113\231\114\6"
-  "\162\215\330\365\242\134\65\157\324\64\153\24\357\263\227\7\126\366\201\225\275\23\254\354\103\260\166\153\60\46\354\262"
-  "\302\246\257\147\61\127\202\151\136\16\105\347\76\370\2\31\174\340\115\306\30\22\13\306\220\27\224\325\345\326\152\237"
-  "\255\377\154\344\317\126\132\135\225\141\60\323\154\52\266\107\202\67\255\267\26\162\213\245\126\3\344\122\53\307\40\257"
-  "\366\152\315\13\371\321\77\272\107\274\174\336\36\72\235\377\115\141\154\5\71\111\207\132\307\107\131\353\333\351\275\145"
-  "\373\152\274\271\236\100\115\276\77\31\112\46\111\57\113\250\241\173\102\375\215\133\35\13\132\55\26\305\135\321\221\234"
-  "\201\221\144\25\207\354\67\362\111\76\301\307\55\63\334\340\335\256\46\157\367\241\60\201\353\200\312\301\245\144\3\75"
-  "\351\66\206\175\147\106\250\41\235\107\252\325\31\137\311\116\71\30\177\132\224\31\145\251\164\42\356\164\73\155\77\77"
-  "\115\172\65\177\366\210\233\372\345\342\246\360\216\251\106\47\71\350\203\33\66\377\265\245\334\112\162\350\351\21\156\164"
-  "\144\234\210\261\273\262\350\335\170\366\210\165\272\235\240\6\212\223\152\0\274\352\41\201\136\324\376\31\137\151\200\123"
-  "\72\234\27\330\126\125\31\134\231\345\176\170\201\230\230\350\244\21\206\217\363\370\241\32\41\115\74\270\161\301\303\161"
-  "\221\224\353\0\43\77\360\377\67\42\265\4\63\40\245\204\210\224\22\242\65\301\350\120\372\7\227\34\316\45\113\64"
-  "\31\351\324\134\217\267\257\263\311\114\153\236\321\170\244\33\230\347\117\65\260\170\256\34\330\225\361\336\61\371\236\354"
-  "\175\351\230\63\335\377\145\331\357\203\317\75\320\51\170\265\63\213\43\205\230\44\375\340\376\1\52\37\303\55\303\221"
-  "\110\22\61\151\365\111\113\214\37\132\342\15\150\211\24\235\354\36\164\261\21\26\144\337\332\204\214\324\23\44\266\162"
-  "\107\51\40\171\165\52\202\352\124\214\250\123\61\114\151\256\311\376\161\321\130\333\51\120\27\43\203\155\223\313\4\333"
-  "\106\110\341\120\30\131\273\32\21\127\133\367\160\337\201\265\157\145\121\56\27\5\127\213\263\177\44\225\343\34\26\61"
-  "\262\336\356\137\27\122\166\373\267\205\51\300\226\217\63\351\112\263\235\123\342\167\321\33\347\244\347\355\23\175\35\235"
-  "\112\152\120\12\111\311\112\351\205\274\71\122\162\230\111\265\374\46\265\373\103\314\160\376\123\214\124\311\47\10\71\241"
-  "\27\3\121\307\240\44\116\163\235\353\202\120\50\41\47\21\41\10\5\306\304\200\41\373\140\314\14\214\231\301\365\5"
-  "\143\146\301\144\341\55\54\141\27\16\157\71\122\266\351\235\23\135\233\71\56\213\75\75\347\37\124\70\130\131\124\342"
-  "\304\75\344\301\356\264\325\26\167\364\202\111\224\342\205\366\55\213\1\321\345\156\261\24\370\277\130\67\347\64\213\210"
-  "\336\227\157\323\27\332\40\101\146\335\251\304\43\111\376\221\313\377\304\374\244\22\7\11\270\60\111\130\165\127\327\264"
-  "\171\217\252\17\262\271\116\225\36\323\22\323\16\376\43\62\232\30\31\35\103\175\43\101\316\130\2\213\30\41\316\237"
-  "\141\154\257\5\225\47\24\242\244\330\351\210\274\12\355\332\150\310\33\63\57\165\62\341\1\314\360\304\341\122\236\303"
-  "\315\37\34\356\327\341\160\17\344\52\221\303\245\220\303\315\21\16\67\347\70\134\252\16\33\270\271\363\301\71\177\225"
-  "\165\45\207\212\253\223\22\170\150\113\340\110\321\276\360\336\11\134\343\236\372\114\330\51\116\317\2\37\342\257\215\217"
-  "\20\104\206\216\253\173\143\242\263\210\262\211\376\272\155\350\320\372\302\127\146\311\242\350\304\343\204\2\154\155\337\26"
-  "\212\47\150\275\3\244\151\356\165\323\71\24\347\42\207\312\371\106\323\300\71\335\103\253\115\173\156\224\136\321\101\43"
-  "\7\261\210\205\45\175\230\250\331\323\247\245\100\112\312\133\20\15\317\151\224\145\365\320\65\72\41\276\331\314\221\152"
-  "\335\55\366\251\131\341\207\171\347\316\345\66\333\125\24\353\163\6\251\370\63\21\177\212\5\175\3\261\242\157\40\225"
-  "\364\225\132\226\254\44\122\225\120\117\54\23\72\27\177\212\243\142\342\250\230\70\52\46\216\212\211\243\142\122\75\122"
-  "\161\124\114\34\25\23\107\345\213\243\362\305\121\371\342\250\174\161\124\276\70\52\304\75\275\163\100\36\106\102\346\276"
-  "\340\103\100\132\50\124\244\13\23\21\263\24\262\164\206\3\251\150\137\3\15\50\361\350\137\167\304\302\175\355\133\174"
-  "\15\16\111\232\132\174\15\270\316\334\246\157\260\346\363\304\142\325\102\360\265\305\232\7\41\344\227\26\213\356\103\245"
-  "\325\263\230\71\213\340\347\314\342\363\30\176\36\130\174\16\155\212\136\150\61\167\144\351\154\316\212\7\77\217\55\172"
-  "\107\346\156\101\261\76\134\171\337\346\260\301\245\363\155\366\335\237\51\100\246\264\336\341\334\175\213\225\17\2\370\271"
-  "\315\312\247\360\163\233\363\12\45\24\146\261\362\14\16\236\131\54\135\177\37\355\317\327\372\111\112\10\147\243\215\145"
-  "\335\361\161\155\55\343\224\33\246\24\135\324\31\15\321\267\71\125\303\17\370\165\210\134\254\103\72\361\72\130\55\303"
-  "\220\125\0\47\114\335\43\374\230\67\67\43\247\305\242\45\336\254\303\170\241\226\11\145\340\371\40\112\306\67\300\370"
-  "\300\5\306\273\232\30\217\301\141\374\210\31\177\54\30\77\202\200\37\101\40\24\202\347\107\20\360\43\10\204\320\11"
-  "\176\4\1\77\202\40\261\120\4\20\275\142\207\57\140\0\126\37\232\7\354\24\365\163\7\366\47\204\33\157\45\310"
-  "\371\242\10\35\212\322\170\50\112\343\241\50\215\207\236\131\364\252\24\314\60\364\315\242\223\362\133\217\160\201\52\77"
-  "\146\147\56\34\362\373\25\102\225\31\113\352\50\200\111\113\334\112\341\153\125\117\256\113\237\273\21\170\152\17\221\320"
-  "\2\304\320\321\237\336\1\46\125\251\260\303\1\140\64\33\343\335\163\136\124\210\135\10\22\212\340\5\17\243\207\77"
-  "\345\327\361\247\74\112\72\22\375\51\141\210\104\374\141\270\214\120\0\146\204\12\46\21\314\147\67\174\146\256\337\334"
-  "\56\32\141\103\321\174\224\212\127\141\52\32\246\22\361\126\115\104\303\124\42\32\246\22\261\345\104\64\114\45\22\60"
-  "\107\174\71\26\137\216\245\227\105\46\35\213\267\171\54\116\41\26\247\20\112\202\201\70\205\60\61\333\252\124\67\160"
-  "\22\231\55\125\312\157\23\263\235\112\371\355\334\154\245\122\175\233\22\154\124\252\157\143\177\204\230\64\67\333\247\224"
-  "\363\15\107\210\130\51\301\66\245\234\160\110\260\114\51\107\35\23\354\122\312\217\123\202\125\112\271\307\36\301\250\244"
-  "\234\163\114\260\312\50\77\16\10\66\31\345\307\36\301\42\243\334\347\204\140\120\121\366\34\21\314\51\312\217\171\71"
-  "\234\127\307\102\136\41\14\171\205\60\204\27\136\205\123\270\203\230\305\112\261\250\44\254\23\24\242\76\373\40\146\340"
-  "\264\316\257\331\353\166\377\363\317\165\276\331\350\103\47\100\172\231\201\1\31\204\211\121\46\344\173\224\14\72\16\2"
-  "\107\370\221\152\273\234\117\321\45\43\245\337\160\333\147\160\251\2\170\134\237\41\51\324\335\151\237\201\141\236\301\260"
-  "\76\165\151\14\246\305\57\314\311\46\330\161\266\110\244\260\65\164\46\66\61\57\172\305\120\361\72\51\162\214\373\140"
-  "\64\117\203\336\34\153\352\262\307\232\104\27\336\53\355\121\10\143\375\121\210\146\146\175\125\330\17\276\144\70\51\202"
-  "\162\314\132\316\203\153\132\313\171\110\212\322\235\140\55\361\104\327\221\220\351\72\362\146\56\327\273\310\124\340\234\110"
-  "\324\356\42\346\42\276\6\130\72\307\232\264\47\71\307\372\102\231\266\30\367\41\206\66\267\43\200\373\115\265\365\165"
-  "\233\77\35\270\5\110\267\260\340\264\331\43\261\344\17\110\60\163\11\265\75\33\351\221\43\42\132\113\242\210\20\251"
-  "\354\253\301\243\374\314\151\301\324\16\71\17\72\374\245\61\215\223\156\223\227\42\323\155\202\310\170\27\200\370\43\234"
-  "\231\244\7\315\274\7\242\376\320\125\116\247\135\145\66\233\364\152\153\126\231\367\165\212\77\244\114\267\72\211\316\340"
-  "\100\152\126\253\44\272\145\272\23\42\204\5\106\211\301\141\246\53\32\113\121\301\163\175\363\375\321\36\356\340\270\71"
-  "\37\222\243\42\3\32\226\300\242\363\215\272\0\144\246\77\207\126\262\204\124\360\67\212\25\145\226\165\4\221\333\234"
-  "\264\134\317\67\346\3\363\23\271\217\300\364\254\103\60\275\231\362\331\335\271\324\32\16\211\105\132\106\274\341\260\43"
-  "\247\263\3\256\145\141\102\334\137\64\177\260\260\7\13\163\306\302\140\332\360\1\14\312\75\77\261\316\65\311\220\134"
-  "\223\314\277\147\176\202\305\65\106\274\263\75\112\225\362\155\356\214\133\14\363\146\320\331\15\125\173\124\163\43\336\17"
-  "\357\50\31\44\104\310\20\365\150\156\54\346\222\332\316\54\24\232\75\122\102\231\112\173\364\123\251\246\62\364\214\263"
-  "\221\306\162\36\222\302\173\343\142\136\375\210\171\334\145\314\343\56\143\136\27\214\171\334\145\314\143\131\240\227\24\350"
-  "\55\307\144\120\2\54\101\2\113\210\220\206\104\204\64\44\242\321\53\21\41\15\261\10\151\210\323\21\76\375\371\10"
-  "\377\170\302\106\370\212\23\177\214\257\70\35\341\356\115\202\21\356\336\176\53\366\347\55\75\221\4\357\341\215\171\226"
-  "\233\100\307\166\254\246\26\271\135\270\116\251\305\307\74\155\43\363\366\350\115\305\311\154\234\370\206\213\6\326\45\57"
-  "\171\6\270\200\134\231\17\40\265\224\65\344\102\230\205\74\370\37\16\344\327\174\224\374\310\347\337\122\147\141\144\26"
-  "\36\176\147\201\327\132\317\274\155\5\103\145\206\260\221\70\121\304\164\224\63\150\250\75\347\261\175\337\57\166\317\171"
-  "\34\122\4\77\64\131\4\21\355\374\303\0\133\126\336\153\11\177\107\45\374\35\225\10\257\11\134\201\147\125\211\220"
-  "\366\202\277\45\123\377\352\116\274\303\323\15\264\226\237\217\323\115\313\325\100\245\351\237\12\232\136\327\213\151\240\352"
-  "\60\236\15\141\11\104\274\255\126\171\345\245\161\136\213\12\234\105\331\303\152\155\174\25\67\167\273\7\162\253\256\245"
-  "\304\252\153\54\253\352\172\147\316\227\272\350\123\204\52\23\246\366\51\125\333\337\365\250\270\267\270\351\54\140\12\311"
-  "\66\337\304\261\270\265\220\32\66\57\236\327\371\6\261\244\30\235\271\40\155\43\237\6\103\340\14\135\256\131\230\242"
-  "\327\230\262\22\346\331\350\76\122\157\211\264\43\350\206\134\347\6\310\245\307\237\363\355\327\33\336\7\171\43\260\235"
-  "\370\172\130\137\363\331\250\207\267\316\366\200\135\34\326\252\107\335\202\357\363\342\345\230\231\32\271\160\257\167\303\344"
-  "\54\321\170\216\150\260\145\313\355\241\250\356\152\27\171\223\324\161\162\160\153\352\255\55\352\275\205\171\330\257\166\167"
-  "\337\344\253\352\155\360\135\245\316\355\375\361\367\213\146\1\344\371\123\157\206\201\323\275\44\67\327\315\32\114\173\60"
-  "\37\266\133\210\53\342\235\272\345\51\300\372\70\345\172\23\257\331\345\71\225\246\316\300\366\120\361\63\350\127\312\124"
-  "\123\40\137\375\120\27\31\20\56\210\76\157\76\320\22\127\77\14\236\42\115\175\37\114\131\346\53\357\150\222\240\243"
-  "\316\213\123\354\164\312\241\313\50\166\166\303\302\26\207\26\61\355\160\131\15\135\366\254\154\202\235\134\357\114\25\21"
-  "\2\125\211\4\303\366\65\373\263\336\21\166\54\37\354\267\4\270\60\102\121\36\273\276\74\276\170\124\111\61\360\201"
-  "\73\65\275\223\144\336\102\152\136\7\7\116\223\254\127\351\332\327\173\53\305\376\341\236\10\334\164\275\71\224\337\72"
-  "\376\335\35\376\336\345\154\70\222\373\354\115\70\221\365\263\121\147\122\171\275\201\67\370\162\55\335\175\267\131\274\224"
-  "\46\231\276\254\26\307\232\105\375\40\304\222\51\172\76\176\312\103\323\65\0\26\367\330\75\232\17\107\106\167\350\234"
-  "\357\206\6\175\155\203\226\140\153\146\50\75\46\130\167\361\312\27\146\324\320\301\252\364\5\27\163\305\154\356\105\305"
-  "\125\111\201\262\150\257\152\356\151\115\333\366\50\216\77\164\346\105\27\40\101\1\34\142\60\74\312\171\2\364\345\100"
-  "\172\151\205\42\355\351\12\324\211\211\210\32\366\211\125\363\62\326\271\272\13\122\260\50\160\142\317\133\326\246\302\50"
-  "\372\345\22\131\33\334\72\355\1\137\337\361\371\265\250\230\201\241\256\332\21\152\356\322\242\332\56\236\71\15\350\362"
-  "\367\151\221\275\54\252\374\55\23\237\356\152\255\60\227\332\347\152\240\235\337\132\272\271\235\167\347\161\265\117\376\316"
-  "\366\333\22\275\253\257\245\274\231\373\172\135\134\256\356\313\224\353\332\351\1\267\315\73\315\106\310\244\335\121\315\360"
-  "\42\363\4\320\354\16\71\314\73\313\212\250\73\143\375\310\231\72\134\317\66\54\25\343\326\241\212\133\137\301\334\1"
-  "\310\213\253\172\355\142\356\351\25\317\135\45\167\332\302\21\261\150\62\114\176\217\11\153\321\243\236\260\45\124\306\55"
-  "\363\63\35\13\357\35\50\341\131\211\163\150\62\174\73\134\355\361\342\321\215\163\323\25\272\36\200\44\262\45\264\156"
-  "\50\332\244\16\315\165\172\373\314\22\144\101\340\313\31\320\114\35\10\215\63\172\162\227\113\117\30\346\136\117\207\163"
-  "\310\17\232\103\254\300\20\153\101\262\30\17\13\240\346\301\245\260\33\312\70\21\6\212\255\112\167\314\14\66\164\23"
-  "\147\100\222\343\236\5\34\52\57\107\130\271\275\101\307\143\361\130\233\216\236\107\32\312\311\213\244\242\123\361\6\60"
-  "\121\24\315\267\123\157\304\44\373\144\62\302\351\115\142\330\372\235\207\240\130\101\365\2\77\154\152\167\155\123\213\146"
-  "\324\150\367\46\373\260\171\370\73\334\151\210\244\210\300\253\342\152\63\43\375\242\66\70\336\136\63\45\351\204\320\246"
-  "\307\333\372\304\362\236\104\222\111\314\303\26\271\223\216\146\304\114\251\163\205\124\167\77\173\76\237\176\317\5\24\76"
-  "\54\67\51\325\111\263\160\275\170\306\210\135\316\107\253\331\163\105\51\64\275\362\227\273\125\375\356\207\242\220\345\313"
-  "\355\27\317\160\3\31\213\266\215\364\24\140\125\135\246\226\172\2\227\142\217\37\242\5\323\356\130\360\101\12\320\270"
-  "\227\174\204\42\53\1\122\6\110\343\354\160\22\316\160\362\213\154\266\305\313\44\136\221\267\305\346\220\121\334\40\123"
-  "\272\74\200\307\103\360\271\264\317\232\342\226\203\335\36\356\75\24\174\270\334\105\74\24\310\21\152\166\317\150\63\123"
-  "\230\331\104\313\135\147\224\63\353\352\241\65\240\203\124\315\236\267\152\250\202\41\65\352\76\245\17\322\162\31\160\42"
-  "\234\276\52\252\230\150\77\52\153\337\76\173\345\131\71\2\126\72\325\230\355\13\272\352\265\30\203\175\203\300\373\210"
-  "\276\41\376\366\20\213\315\2\274\27\110\74\315\125\340\321\155\37\42\161\33\172\352\306\213\30\147\342\310\230\220\337"
-  "\336\274\67\140\150\350\202\164\154\203\317\17\107\64\35\233\51\154\225\277\265\24\46\104\51\164\237\51\114\7\334\11"
-  "\321\233\324\40\171\161\374\220\156\56\353\204\27\232\201\1\21\36\354\305\31\134\30\241\35\52\222\257\327\316\331\141"
-  "\210\364\307\214\270\170\174\160\117\306\2\264\121\106\125\70\226\111\46\27\114\342\220\46\230\360\357\75\4\223\153\26"
-  "\114\304\112\146\145\377\360\41\255\70\133\303\351\105\230\272\57\121\204\1\51\44\36\62\315\103\246\161\52\323\324\44"
-  "\67\132\246\321\237\243\3\340\105\17\31\350\303\144\40\300\124\256\136\50\132\125\333\125\333\233\50\304\254\33\341\104"
-  "\51\144\274\56\216\121\213\315\73\355\223\345\122\374\235\375\330\61\121\174\220\242\262\377\326\242\103\277\213\77\313\157"
-  "\342\357\245\370\363\375\1\55\45\312\107\155\130\333\214\160\261\234\171\120\115\14\170\174\125\252\314\314\123\177\201\305"
-  "\162\245\375\277\166\150\115\57\210\346\363\230\45\101\342\205\363\250\377\347\105\201\344\177\51\252\201\375\365\353\30\61"
-  "\75\23\55\277\355\165\2\102\153\227\367\302\4\334\113\334\100\217\244\217\127\42\342\136\132\310\157\104\0\60\41\117"
-  "\26\151\327\123\140\257\64\165\173\372\126\60\371\255\137\143\345\26\305\375\77\157\367\312\35\102\30\77\62\170\337\113"
-  "\42\235\117\245\377\4\304\300\257\336\325\11\57\333\133\255\305\104\11\321\340\257\331\153\331\146\70\340\42\345\214\155"
-  "\373\1\243\340\160\365\313\350\173\335\177\20\321\300\66\241\31\151\320\61\5\100\153\75\150\203\10\255\31\164\347\345"
-  "\341\105\172\270\164\132\42\177\121\26\304\146\163\145\103\372\306\331\34\266\16\144\314\123\4\341\67\44\12\353\274\126"
-  "\100\305\134\312\332\126\20\352\134\153\4\317\332\202\26\315\113\312\221\273\104\207\177\374\335\173\241\63\104\371\354\252"
-  "\72\316\20\364\14\154\136\111\247\32\167\327\231\226\136\17\33\245\217\132\21\44\214\361\165\76\122\352\233\136\27\55"
-  "\277\155\316\67\20\122\257\144\252\131\41\40\135\335\136\71\75\226\226\35\241\372\314\162\11\120\62\343\34\351\162\61"
-  "\370\100\33\146\107\365\230\112\207\150\43\161\223\241\76\330\205\361\316\103\110\320\160\345\35\27\200\41\241\153\14\152"
-  "\134\264\270\101\55\137\325\254\4\362\335\347\271\255\55\141\116\51\23\10\273\223\25\163\45\63\236\33\355\175\113\234"
-  "\14\24\274\70\45\240\265\154\327\200\236\257\34\1\4\151\130\261\230\162\272\303\231\134\232\363\162\13\371\176\1\46"
-  "\11\231\314\273\356\240\365\122\275\261\254\26\215\121\276\233\52\7\10\235\157\150\50\54\130\107\102\344\276\246\271\361"
-  "\353\6\50\137\0\41\215\3\233\34\131\123\12\41\162\124\244\336\337\112\151\116\361\25\247\14\331\363\130\144\26\2"
-  "\217\45\206\7\113\250\73\42\350\323\367\315\353\315\125\22\321\125\222\363\105\210\270\37\240\310\251\17\77\365\232\134"
-  "\350\337\371\205\201\167\370\167\102\346\32\144\131\104\114\156\127\172\23\256\303\213\161\35\346\212\103\44\215\316\124\35"
-  "\56\66\243\161\337\325\246\150\121\214\343\373\32\234\234\106\323\33\52\313\275\163\374\42\66\156\223\126\226\373\176\306"
-  "\244\205\70\14\355\274\203\2\132\155\74\203\362\175\4\157\51\100\77\73\222\261\303\161\373\211\161\204\201\37\322\216"
-  "\264\204\55\236\17\241\135\47\141\233\172\376\73\64\357\374\151\265\347\316\166\224\147\313\342\17\161\41\317\265\312\32"
-  "\13\3\201\7\7\363\210\46\315\135\162\157\272\24\342\366\321\133\3\27\230\371\230\276\41\270\165\74\62\361\133\57"
-  "\67\356\327\33\341\332\330\27\53\331\265\221\43\236\14\311\321\160\330\15\166\24\20\346\35\362\227\232\20\3\211\234"
-  "\237\41\227\30\265\364\230\221\20\243\0\23\323\54\364\233\153\31\275\46\335\377\344\247\331\327\10\367\366\125\63\60"
-  "\35\20\172\44\33\51\344\260\63\6\253\353\320\44\127\266\167\243\323\243\345\352\300\12\310\20\277\153\203\74\277\33"
-  "\230\231\135\210\47\145\241\277\117\162\327\153\34\104\55\361\30\152\54\174\267\271\144\276\217\13\313\34\172\267\175\327"
-  "\306\154\16\336\112\64\144\163\330\126\352\123\331\244\324\310\174\54\54\162\340\6\321\202\37\223\231\326\132\106\340\77"
-  "\372\144\31\223\263\346\50\121\170\116\351\75\217\263\160\323\223\372\130\246\254\30\266\164\172\327\40\114\160\152\163\367"
-  "\255\150\260\52\215\6\46\261\44\321\2\205\133\242\22\243\200\270\56\167\331\62\137\154\46\204\2\257\171\210\257\63"
-  "\100\157\171\111\264\313\35\244\111\323\142\175\225\200\27\165\366\36\32\120\221\42\130\255\312\130\256\42\215\274\222\314"
-  "\224\136\20\253\174\136\303\7\231\232\7\71\67\15\122\274\331\15\50\200\222\310\156\326\127\12\312\55\115\5\132\265"
-  "\375\225\164\146\253\143\250\26\76\104\345\51\150\217\324\17\357\117\217\377\317\356\37\336\323\357\377\365\344\75\375\327"
-  "\37\375\253\233\352\232\366\204\135\147\142\300\351\47\36\134\147\126\300\351\47\36\116\227\22\360\143\120\313\6\170\60"
-  "\347\220\207\214\135\300\16\363\51\337\335\30\327\326\325\166\161\51\271\251\254\176\156\46\13\343\56\153\72\20\45\237"
-  "\14\310\133\310\203\305\112\22\227\212\112\237\355\66\373\261\363\75\111\114\313\177\144\122\63\105\366\122\277\370\241\140"
-  "\346\133\221\367\6\12\163\143\303\232\370\73\321\377\163\315\377\147\367\17\337\143\301\361\132\364\377\114\346\111\74\17"
-  "\374\40\373\107\340\245\374\45\371\122\71\216\263\72\17\350\263\146\104\237\65\103\332\124\6\177\202\153\356\207\356\227"
-  "\115\54\204\240\271\71\53\216\354\30\25\217\202\264\125\1\146\107\66\144\122\143\62\315\105\102\305\277\307\201\15\376"
-  "\335\56\356\110\55\157\231\247\255\71\270\57\232\340\251\261\262\32\52\44\231\107\73\132\124\102\145\24\102\277\3\223"
-  "\27\233\43\112\145\62\61\246\311\25\312\17\374\334\144\204\0\304\300\234\47\366\34\242\272\46\104\257\152\255\154\60"
-  "\261\357\360\221\333\26\111\127\135\27\253\345\52\216\316\52\24\233\67\227\105\366\17\157\216\135\21\104\257\7\77\120"
-  "\237\100\114\375\234\221\5\71\17\134\340\267\134\224\230\40\217\57\134\256\250\6\105\301\3\164\14\41\165\10\231\314"
-  "\41\234\122\312\173\213\126\42\347\374\307\202\230\276\130\21\362\267\15\164\252\41\255\117\231\255\173\110\166\155\302\0"
-  "\61\32\321\245\327\306\10\111\330\307\307\376\134\154\177\264\110\16\241\165\34\275\356\173\23\136\17\347\366\71\335\67"
-  "\264\56\161\207\16\123\314\120\335\265\144\336\2\263\63\276\321\363\106\372\303\24\274\323\314\344\15\354\122\134\121\15"
-  "\40\327\374\261\366\16\326\43\377\365\27\266\223\213\133\151\315\307\150\312\323\343\367\24\373\174\122\336\235\155\264\147"
-  "\275\334\347\27\44\143\273\125\26\15\350\120\111\165\341\64\230\126\222\131\132\366\62\173\143\156\112\331\107\11\130\133"
-  "\72\0\326\52\320\20\206\336\217\100\333\122\236\225\236\362\372\263\110\113\265\240\137\175\106\311\275\177\215\33\37\14"
-  "\307\104\334\302\364\102\215\223\102\320\113\305\134\26\43\330\214\105\305\207\53\137\73\220\54\66\236\53\364\241\213\326"
-  "\305\160\250\14\351\345\72\136\101\172\121\227\363\363\103\53\231\57\262\225\371\216\226\157\325\35\357\253\137\56\324\142"
-  "\252\342\372\23\114\144\252\305\324\321\73\157\252\354\306\241\310\15\144\32\13\147\247\30\146\277\245\326\230\62\147\352"
-  "\122\250\262\46\125\112\165\62\65\176\67\323\61\262\50\327\21\331\246\121\17\135\246\235\106\361\173\167\234\164\72\166"
-  "\25\202\141\300\6\142\54\160\320\241\205\374\117\323\316\275\354\323\305\112\27\61\227\265\250\123\333\223\234\270\74\311"
-  "\217\102\30\3\117\262\241\334\205\14\326\22\42\252\260\250\326\356\76\125\335\261\24\130\54\174\337\123\12\70\126\306"
-  "\72\252\175\14\275\373\26\3\202\31\356\246\170\262\217\205\204\211\321\224\60\44\354\212\204\43\350\346\213\357\357\316"
-  "\0\25\141\24\205\72\210\356\22\232\127\215\162\110\15\347\16\17\267\160\141\231\47\37\124\344\262\153\357\14\344\102"
-  "\276\135\112\161\301\0\245\312\42\252\12\43\122\160\165\50\320\144\104\261\125\221\350\151\250\101\302\114\346\47\323\34"
-  "\246\22\375\102\154\77\302\366\71\102\102\370\307\126\60\112\254\353\151\305\116\13\20\45\206\134\0\367\127\200\50\165"
-  "\26\217\37\317\140\246\10\71\70\177\332\62\103\213\13\242\120\335\101\116\141\146\334\143\346\305\274\54\27\142\6\335"
-  "\272\1\51\307\356\267\305\146\55\76\331\1\154\52\1\276\232\353\163\353\142\40\324\161\365\2\46\111\262\333\77\110"
-  "\344\7\251\374\140\76\31\266\65\140\17\154\353\3\333\372\313\141\133\57\226\201\131\116\270\254\372\212\327\11\221\14"
-  "\354\245\52\123\330\324\371\252\217\134\335\10\174\120\311\300\267\206\375\35\56\237\143\145\53\167\226\16\303\335\55\105"
-  "\204\135\323\272\134\123\300\330\65\255\313\204\361\144\327\70\335\150\40\324\342\312\247\5\334\173\251\314\27\175\346\115"
-  "\17\23\160\16\321\367\3\33\214\376\240\322\1\0\152\131\217\222\141\131\343\317\267\34\222\116\274\155\35\317\251\256"
-  "\55\106\200\226\14\140\1\51\177\262\171\204\226\165\15\372\26\220\325\305\254\250\201\22\162\245\330\103\330\22\17\50"
-  "\126\345\352\204\51\221\271\354\335\232\274\250\112\360\262\132\72\0\35\36\325\121\355\142\163\317\373\167\101\347\246\16"
-  "\345\371\64\377\306\215\26\221\274\216\232\63\165\140\375\273\174\273\252\275\307\276\103\47\311\247\321\37\252\7\31\173"
-  "\240\5\243\250\46\200\347\302\107\305\101\144\7\172\36\205\234\170\353\204\146\27\242\42\344\372\100\117\266\55\377\274"
-  "\62\220\60\43\61\110\267\20\141\237\175\70\36\60\41\141\204\331\107\102\204\231\75\102\230\115\0\20\276\312\355\113"
-  "\157\26\12\173\5\213\7\220\57\51\0\243\373\354\242\102\56\111\216\177\40\56\37\210\313\7\342\322\1\342\122\4"
-  "\343\21\123\231\23\220\170\302\51\266\6\342\15\267\14\344\277\250\363\375\242\40\277\233\303\232\42\300\103\23\132\300"
-  "\163\212\26\360\15\305\100\356\16\157\352\63\147\150\1\17\1\15\312\160\102\343\162\52\134\52\43\253\172\252\105\375"
-  "\173\103\177\75\240\231\37\3\315\14\146\372\342\67\37\11\315\244\231\107\43\324\325\52\130\45\151\226\303\106\141\161"
-  "\177\216\271\306\305\132\360\100\323\46\226\153\103\170\271\320\356\325\24\273\267\56\155\177\207\54\116\52\61\244\52\65"
-  "\204\27\315\122\2\13\335\201\123\211\46\202\7\72\225\264\321\61\266\321\61\122\123\152\54\72\325\72\270\311\167\32"
-  "\335\244\50\20\165\317\350\324\13\126\213\232\34\235\372\126\26\273\175\136\124\153\133\210\52\206\110\135\157\367\257\213"
-  "\352\67\31\246\152\302\232\362\200\324\366\21\17\133\355\120\244\365\66\345\145\276\225\160\242\62\154\264\107\316\166\55"
-  "\301\126\44\210\350\242\314\304\47\47\140\255\0\141\155\36\375\66\107\336\373\115\316\230\332\76\365\45\374\52\227\37"
-  "\266\203\274\112\43\223\376\365\67\77\222\246\126\76\157\66\67\17\157\75\17\314\3\117\300\130\175\60\130\37\214\326"
-  "\7\303\365\301\170\175\60\140\37\214\330\7\103\366\301\230\31\30\63\203\353\13\306\314\300\230\31\30\63\3\143\146"
-  "\140\314\14\214\231\201\61\263\371\365\247\310\75\45\234\42\201\75\133\216\102\251\174\253\63\50\102\226\331\337\101\210"
-  "\65\372\30\312\45\60\311\143\152\352\342\260\1\330\202\356\46\261\53\33\300\113\136\232\52\361\303\313\12\214\155\370"
-  "\174\165\47\346\240\167\107\235\336\233\21\3\43\157\304\116\305\250\213\147\254\127\203\177\312\127\127\300\54\45\310\50"
-  "\315\205\165\234\217\62\123\130\144\370\250\203\136\64\156\17\231\20\264\47\352\114\250\43\107\262\207\112\326\132\51\206"
-  "\134\164\21\210\216\13\271\270\324\64\47\341\104\263\241\131\230\346\337\151\261\66\235\144\356\201\257\43\213\257\375\231"
-  "\321\265\255\376\172\256\160\224\223\76\116\315\46\153\365\307\135\260\334\376\274\327\274\157\201\354\117\200\0\273\363\373"
-  "\206\23\204\24\204\213\46\76\101\232\164\106\105\277\36\261\265\173\205\271\130\16\304\317\30\137\333\162\314\147\166\340"
-  "\371\21\313\201\150\337\311\265\55\7\342\222\322\203\346\107\254\7\22\353\231\136\335\172\370\63\113\47\303\210\5\101"
-  "\314\13\363\253\133\20\146\364\342\343\37\306\20\37\300\143\245\170\116\316\207\354\7\20\142\240\351\32\17\145\163\163"
-  "\75\13\161\160\265\112\276\312\226\317\230\61\337\243\213\316\102\223\213\152\233\253\347\243\23\342\234\211\375\41\41\327"
-  "\337\333\102\361\4\167\271\101\171\234\173\135\75\150\356\130\274\23\220\255\153\167\167\232\6\345\365\256\163\160\351\267"
-  "\352\135\363\72\61\36\22\1\13\360\202\336\244\362\71\101\116\357\255\164\323\123\151\154\246\122\143\24\313\10\66\315"
-  "\13\310\46\12\156\367\11\311\111\105\153\145\304\336\255\366\333\335\35\261\102\221\276\176\135\166\250\167\244\147\324\24"
-  "\351\324\65\305\352\271\325\7\51\2\316\51\364\44\121\171\33\142\40\361\331\205\171\233\2\25\41\271\267\44\347\233"
-  "\224\51\246\373\31\243\256\134\220\166\150\112\13\202\17\2\147\175\17\341\114\201\322\14\20\301\357\143\233\357\23\370"
-  "\175\152\363\75\220\366\174\337\252\377\30\272\271\231\315\367\51\147\117\230\17\110\56\24\71\321\11\220\336\162\176\151"
-  "\46\71\32\123\62\325\216\12\254\257\357\310\167\142\224\100\274\357\271\37\135\210\327\110\151\312\310\130\0\237\71\321"
-  "\270\261\364\124\176\174\323\304\24\16\43\246\330\215\44\210\230\164\374\344\303\150\51\276\50\143\102\314\67\176\172\1"
-  "\257\206\70\147\232\165\327\25\357\100\54\64\376\374\342\163\116\57\271\317\14\321\73\231\167\361\71\317\147\212\177\20"
-  "\305\64\46\372\161\42\311\77\44\372\200\42\321\7\24\112\201\245\242\20\27\210\102\134\20\212\77\305\216\2\261\243"
-  "\100\152\131\34\44\23\105\113\46\212\226\114\24\55\231\70\52\46\216\212\211\243\142\322\342\210\243\142\376\45\344\120"
-  "\6\334\111\101\2\11\312\127\211\141\21\260\67\306\221\305\347\154\256\250\303\101\373\74\0\102\164\342\331\174\16\346"
-  "\236\370\66\237\107\212\354\40\304\271\203\317\347\66\53\317\200\67\156\156\325\73\220\377\347\126\53\17\305\167\317\146"
-  "\351\41\331\41\365\126\164\375\263\231\242\22\12\361\173\157\246\250\41\107\374\36\252\77\236\25\341\303\361\373\66\363"
-  "\147\160\375\175\233\371\107\160\375\175\233\361\207\310\367\126\324\13\325\137\146\105\77\341\371\302\211\370\13\207\11\321"
-  "\353\274\243\231\11\257\361\320\156\306\47\247\145\274\47\204\115\206\46\200\23\67\124\210\45\5\330\270\36\133\12\224"
-  "\101\165\375\130\120\366\367\10\340\274\334\120\273\363\243\313\111\224\176\354\20\347\251\161\204\314\74\102\20\252\201\275"
-  "\155\264\21\46\166\26\102\142\72\262\211\210\216\246\64\6\64\45\342\22\123\350\56\3\301\266\256\217\177\165\77\4"
-  "\317\101\111\130\234\170\202\341\346\145\162\372\62\332\120\330\150\103\367\44\173\176\155\174\234\47\6\234\221\133\150\350"
-  "\352\55\162\346\155\321\46\45\25\336\107\22\346\116\227\225\327\220\332\264\344\323\167\301\60\301\70\324\324\172\127\236"
-  "\115\264\17\174\164\134\16\62\155\171\166\362\64\172\17\76\37\323\322\135\61\150\240\245\344\321\102\75\316\66\11\215"
-  "\213\152\273\170\336\154\213\227\346\177\124\330\141\252\153\214\267\271\134\200\212\11\76\303\63\25\377\66\277\10\35\377"
-  "\66\67\347\204\62\134\125\174\73\206\332\314\150\277\46\32\325\14\121\113\220\223\321\336\130\262\213\103\333\154\30\227"
-  "\41\101\30\317\113\216\332\147\351\265\117\311\217\65\163\272\314\140\160\241\231\73\362\260\220\374\64\147\236\122\51\232"
-  "\164\350\273\12\341\344\123\257\211\46\267\31\345\225\235\173\131\51\42\236\32\232\20\345\236\4\56\41\224\151\50\341"
-  "\376\45\206\253\335\62\242\3\310\173\334\251\356\27\225\105\20\205\165\27\367\153\347\347\211\2\332\4\257\345\262\365"
-  "\57\164\331\372\127\174\272\350\346\74\301\311\214\105\110\136\44\104\222\317\365\305\122\376\307\174\172\313\174\34\135\332"
-  "\20\171\255\27\311\232\140\220\161\107\306\175\145\66\175\230\60\112\251\110\224\54\13\56\115\251\201\360\203\367\110\5"
-  "\274\107\52\20\42\151\170\217\124\20\115\111\335\130\16\247\146\371\232\144\30\306\212\353\211\63\177\25\255\277\170\256"
-  "\266\135\116\331\157\342\217\263\231\376\302\154\100\267\300\247\243\276\254\176\356\262\57\325\166\263\175\317\366\346\354\142"
-  "\116\370\312\172\4\137\101\160\276\54\274\70\137\201\136\177\220\375\171\174\142\125\61\217\125\220\10\1\375\110\126\53"
-  "\374\1\265\104\60\65\303\325\372\216\323\127\35\67\72\110\221\304\144\1\57\362\4\352\312\250\37\145\57\274\273\354"
-  "\40\3\22\275\5\163\376\200\204\336\343\200\114\163\100\102\17\71\40\241\300\36\347\63\53\255\6\11\65\140\321\245"
-  "\171\172\210\125\322\274\164\320\232\376\272\345\135\377\203\35\372\134\66\122\341\122\56\253\175\121\23\213\300\120\116\204"
-  "\377\33\104\244\215\275\314\102\250\36\110\335\160\41\362\355\201\146\212\150\370\101\131\31\103\21\362\33\206\167\237\225"
-  "\61\14\315\353\147\125\317\244\20\303\147\33\326\300\153\125\342\217\0\255\165\20\306\304\64\11\55\15\104\346\71\364"
-  "\164\144\44\1\21\42\36\102\210\341\116\275\76\277\140\105\3\144\201\334\23\20\217\0\25\177\304\116\262\301\206\163"
-  "\173\306\223\72\145\74\142\24\103\344\335\75\343\211\274\13\320\15\57\237\213\77\54\145\21\44\364\217\305\227\226\105"
-  "\40\52\74\245\245\160\301\254\37\301\240\174\36\204\52\170\115\276\325\221\105\360\156\337\171\207\246\271\127\126\137\365"
-  "\343\133\360\300\336\207\37\125\201\211\377\0\67\217\211\351\40\361\261\54\271\70\323\141\346\10\264\373\115\75\212\204"
-  "\351\262\364\342\133\20\114\33\152\170\347\173\210\204\35\263\371\305\275\243\336\14\144\226\345\55\45\14\126\370\104\126"
-  "\7\115\261\274\316\71\143\276\276\230\254\13\23\41\267\177\222\205\113\13\200\320\135\54\122\223\252\62\31\10\337\234"
-  "\254\272\317\124\225\3\326\247\262\1\117\277\147\77\166\333\175\365\364\251\175\360\351\17\241\222\300\172\207\225\10\20"
-  "\237\55\372\244\365\312\22\1\175\21\201\366\167\75\56\356\55\156\102\13\230\341\274\275\134\365\44\47\234\75\263\65"
-  "\252\231\205\342\322\27\356\120\261\276\202\120\376\273\62\231\6\336\220\172\336\225\141\133\344\135\301\67\345\112\67\341"
-  "\370\257\115\245\211\76\251\330\366\253\246\376\20\250\51\164\113\33\125\312\73\125\242\133\365\365\260\276\352\3\124\217"
-  "\157\235\355\1\133\71\254\157\171\153\12\260\67\5\155\163\226\333\103\121\335\360\176\161\217\232\251\334\316\236\275\311"
-  "\133\366\106\346\174\352\2\65\267\302\255\64\313\2\256\351\267\341\367\364\320\205\272\314\335\252\131\4\300\153\337\106"
-  "\60\133\313\125\270\74\203\324\55\104\1\127\302\55\153\163\272\72\123\261\43\365\12\355\263\142\361\232\325\223\352\27"
-  "\250\173\42\255\317\166\263\132\257\304\251\327\217\166\213\276\152\125\373\260\310\336\345\367\352\107\334\173\312\33\40\333"
-  "\357\267\173\234\347\67\235\43\17\217\315\352\36\167\113\122\257\304\313\227\372\377\20\215\243\31\57\362\20\153\232\177"
-  "\254\152\372\364\374\175\121\346\317\145\261\330\225\337\266\325\363\156\237\275\345\331\273\377\345\370\365\363\151\201\101\371"
-  "\300\343\354\111\120\160\53\43\54\275\131\136\43\252\277\52\266\137\232\377\305\117\155\117\120\352\34\311\46\232\223\51"
-  "\16\322\33\112\134\24\112\252\277\255\65\307\236\14\273\302\151\331\73\362\124\135\121\354\212\13\112\225\320\144\242\73"
-  "\22\142\262\341\365\262\250\66\137\326\265\166\135\223\342\106\172\277\241\305\156\375\360\275\327\322\233\342\344\300\342\233"
-  "\260\320\63\165\164\335\76\16\30\235\60\61\153\243\234\70\115\253\206\102\241\41\236\123\167\354\166\260\241\102\227\255"
-  "\74\211\355\217\266\23\143\311\76\173\335\276\11\107\374\370\133\72\342\224\243\214\234\330\375\35\37\140\27\247\327\160"
-  "\70\124\31\162\56\105\53\250\245\156\304\251\224\357\235\323\62\35\212\274\246\304\57\207\142\223\27\177\11\247\253\131"
-  "\243\275\371\46\205\66\121\176\113\325\113\23\370\243\120\374\264\116\222\130\5\241\37\220\213\146\304\342\13\213\275\177"
-  "\255\133\22\326\372\244\0\133\314\53\12\135\320\251\46\12\153\357\216\307\355\116\2\353\331\362\330\374\226\170\134\211"
-  "\225\177\225\52\237\326\337\111\152\203\101\313\216\103\235\347\246\125\71\165\13\56\13\257\147\51\221\153\247\176\10\302"
-  "\17\206\34\33\364\173\142\244\230\213\124\113\45\376\100\45\300\343\61\0\274\62\317\137\337\353\367\175\136\145\42\200"
-  "\205\43\347\224\322\304\356\120\55\125\55\100\364\20\255\5\204\364\221\375\354\36\135\142\55\140\116\6\332\114\270\3"
-  "\370\307\177\374\177";
+  "\243\213\253\275\132\120\334\71\252\334\231\106\173\105\231\177\112\117\355\170\30\11\7\264\26\147\143\175\210\242\65\176"
+  "\357\50\205\133\344\102\175\44\23\272\221\144\102\30\163\40\237\264\15\61\111\104\337\311\340\354\220\110\316\324\302\150"
+  "\154\47\303\75\125\320\212\313\272\5\313\101\176\277\41\256\23\222\212\350\6\110\64\271\333\320\151\362\43\173\267\241"
+  "\161\343\305\333\115\345\377\102\116\141\101\272\217\355\154\225\245\165\264\230\131\42\54\115\336\230\103\41\152\350\247\337"
+  "\356\25\33\227\345\25\114\201\301\266\1\216\16\157\166\66\47\136\355\227\31\217\235\45\325\140\341\37\144\103\277\213"
+  "\114\42\33\353\210\3\202\326\253\254\5\67\54\27\115\72\61\316\336\132\260\31\77\150\227\322\330\0\203\6\271\57"
+  "\255\252\155\231\300\140\10\30\45\35\144\123\320\217\301\56\304\231\154\163\37\52\20\234\73\210\174\167\151\217\334\326"
+  "\274\162\124\122\141\140\350\263\333\324\122\376\360\240\32\12\205\251\345\221\143\112\242\152\213\73\10\332\337\247\1\34"
+  "\363\35\161\317\366\371\113\136\20\14\105\315\107\267\134\4\112\41\353\140\311\237\170\240\365\4\345\224\0\173\72\155"
+  "\202\71\273\333\55\372\143\65\200\277\160\154\302\251\41\343\261\20\60\6\370\177\117\235\30\211\10\335\160\202\144\267"
+  "\33\66\111\65\215\117\227\66\315\327\245\115\73\176\333\13\26\365\337\261\10\7\145\376\145\167\153\160\174\270\41\72"
+  "\121\166\143\103\134\24\327\322\260\152\73\312\351\364\76\41\27\111\104\247\21\215\121\73\303\373\176\261\173\316\143\7"
+  "\125\46\35\243\257\65\103\164\140\5\232\276\272\226\102\132\31\207\225\102\216\45\312\322\10\356\5\300\61\35\234\151"
+  "\304\264\304\165\103\127\200\325\20\150\174\324\334\32\50\30\237\306\270\252\23\110\216\17\155\62\320\205\27\56\330\22"
+  "\115\122\257\345\103\63\34\271\53\113\367\201\110\255\361\111\205\34\324\30\162\141\36\304\322\22\257\355\300\273\104\327"
+  "\127\72\121\242\261\13\357\374\370\32\133\237\57\130\225\21\251\206\345\202\201\174\74\247\107\104\131\245\110\113\277\12"
+  "\354\243\53\306\144\32\301\344\74\377\343\244\20\140\371\250\262\315\106\17\214\74\332\56\4\173\206\140\11\151\237\55"
+  "\126\337\17\245\52\322\330\35\154\243\62\301\66\306\203\335\247\51\2\275\36\10\215\365\224\112\14\167\104\116\213\177"
+  "\211\373\102\23\64\303\15\342\3\142\116\156\306\160\143\25\177\356\56\213\173\352\54\41\270\202\356\144\171\205\306\217"
+  "\107\25\346\236\320\304\302\261\21\356\12\243\365\300\333\21\250\32\33\267\222\312\106\21\63\217\136\57\343\376\125\203"
+  "\225\74\316\231\303\112\36\177\252\240\362\222\45\134\170\246\265\204\253\370\264\74\114\223\255\15\10\16\300\172\257\231"
+  "\350\361\246\343\46\172\374\111\216\11\320\313\311\375\35\12\14\35\352\341\354\263\367\274\340\212\144\236\176\53\6\344"
+  "\14\345\340\114\350\167\173\26\75\122\225\210\51\156\173\227\156\342\17\326\332\135\24\223\217\375\233\327\332\307\373\172"
+  "\77\207\103\265\166\75\44\175\267\225\100\351\365\3\3\253\75\147\367\121\172\27\61\151\334\44\171\243\314\153\344\235"
+  "\267\31\207\54\21\123\264\250\154\344\322\135\201\156\111\152\233\270\251\224\267\246\34\271\65\332\353\256\117\364\162\134"
+  "\63\204\32\123\15\157\264\270\356\352\46\337\204\42\53\355\3\303\254\100\366\336\327\355\52\123\306\112\250\221\170\314"
+  "\276\356\112\150\164\151\107\323\372\270\317\117\340\350\301\150\175\60\134\37\14\317\217\307\24\145\264\314\11\353\46\7"
+  "\156\253\205\341\236\44\347\265\245\324\152\140\24\17\317\320\47\316\263\77\71\233\374\353\261\62\171\106\66\355\204\303"
+  "\357\377\356\202\243\206\74\14\223\130\350\140\272\221\200\271\351\45\217\200\105\266\227\156\33\25\44\226\325\211\260\124"
+  "\153\150\32\66\105\202\77\156\22\107\326\47\153\344\55\164\33\270\210\102\213\217\101\317\261\315\327\134\335\332\210\122"
+  "\132\341\202\202\123\70\34\276\145\171\370\342\321\207\157\164\111\24\72\116\117\107\303\22\124\77\240\46\60\230\324\201"
+  "\245\42\104\333\354\116\175\272\161\373\310\103\140\12\303\23\136\143\255\301\100\75\333\373\23\31\317\334\145\202\13\52"
+  "\225\303\252\34\374\334\206\152\221\314\322\365\145\53\115\30\262\121\247\326\45\6\261\214\155\160\207\122\270\103\266\221"
+  "\335\241\255\233\115\73\14\220\124\353\50\200\274\326\77\266\113\353\173\336\33\32\345\356\262\50\62\263\365\164\115\106"
+  "\71\323\43\235\175\4\374\344\133\206\1\360\102\54\21\63\256\367\336\220\250\224\220\361\212\205\116\127\322\100\27\341"
+  "\154\244\372\223\16\215\1\341\3\225\371\133\26\334\375\250\205\102\223\300\215\354\231\277\24\264\107\350\64\166\233\344"
+  "\13\63\55\310\226\5\13\303\202\331\102\2\57\360\320\44\252\353\356\174\50\100\40\22\212\150\137\151\54\45\242\361"
+  "\131\123\320\66\57\237\267\313\352\171\225\277\344\225\30\300\370\215\140\41\132\176\323\224\272\152\247\237\132\147\55\41"
+  "\264\312\5\110\154\350\270\127\76\377\32\367\167\375\362\254\262\345\355\55\117\162\261\345\371\226\375\370\105\226\147\150"
+  "\345\53\363\170\346\311\24\263\254\371\303\200\151\136\140\272\161\64\305\164\23\157\314\154\355\151\277\254\366\305\46\53"
+  "\332\236\172\3\163\157\131\357\154\320\213\37\24\243\163\311\75\123\147\276\21\374\14\102\2\4\74\171\115\333\271\356"
+  "\61\61\141\216\360\211\101\3\225\242\74\113\123\106\262\1\22\77\61\335\216\66\75\267\71\102\303\56\73\267\56\211"
+  "\105\211\144\310\327\320\326\242\332\346\12\262\122\273\55\164\0\66\15\366\51\107\14\222\47\172\122\23\40\65\300\127"
+  "\261\365\102\176\42\160\305\132\145\35\311\325\145\244\305\252\173\310\1\272\202\344\75\326\351\375\214\207\51\304\155\24"
+  "\10\141\347\252\104\110\102\312\171\134\227\310\215\222\101\361\134\213\241\353\154\57\220\161\223\70\132\140\217\371\352\7"
+  "\340\227\65\127\25\237\275\364\210\35\235\70\121\67\205\60\272\56\23\276\241\110\327\161\144\252\6\101\36\153\135\360"
+  "\272\66\301\271\254\253\241\353\266\316\67\331\304\253\326\61\211\265\134\160\207\232\367\315\260\174\315\311\172\344\133\174"
+  "\144\26\35\225\131\224\257\373\243\316\127\103\63\213\277\160\220\20\114\320\263\214\77\36\222\11\362\224\47\310\230\301"
+  "\314\124\267\240\331\253\232\117\210\12\327\252\254\114\131\41\163\4\16\77\151\146\307\125\131\251\62\275\253\263\260\213"
+  "\56\321\170\234\203\124\157\356\346\42\234\72\146\122\13\223\325\342\353\46\73\266\160\154\363\330\313\261\337\343\110\114"
+  "\102\337\112\100\220\53\31\236\72\252\324\256\132\270\302\375\146\30\20\263\37\220\37\313\43\362\143\171\110\14\35\122"
+  "\110\32\122\140\63\44\13\177\144\104\352\75\234\250\367\230\324\173\244\352\135\17\20\123\150\43\46\246\261\256\31\271"
+  "\65\333\130\77\255\55\330\306\4\74\200\174\262\341\341\165\161\140\117\203\135\37\53\314\146\257\333\252\136\305\226\40"
+  "\326\203\334\343\326\347\263\355\337\61\101\34\125\314\102\40\205\134\22\37\241\324\211\11\231\137\27\245\104\57\357\371"
+  "\252\372\46\301\15\317\362\252\62\60\353\334\162\373\140\45\11\243\177\57\265\262\352\366\57\361\167\123\227\207\307\225"
+  "\326\243\77\17\243\175\366\165\47\321\361\172\147\274\17\175\343\175\30\330\143\377\142\367\11\157\136\66\333\257\275\114"
+  "\261\257\276\224\273\231\254\1\176\155\37\251\136\325\152\225\355\107\245\374\21\241\337\365\156\146\262\112\360\152\233\342"
+  "\225\25\20\272\32\322\63\347\126\321\31\66\77\253\55\233\73\136\37\44\311\353\342\170\72\201\33\311\375\172\242\115"
+  "\164\344\374\62\147\373\175\261\375\322\374\57\317\22\153\276\260\33\77\130\151\14\57\135\2\277\326\276\206\165\202\51"
+  "\315\203\72\326\357\366\351\136\74\207\316\324\302\357\52\337\147\313\252\143\60\365\147\374\177\377\120\151\2\250\52\21"
+  "\106\256\122\137\202\226\3\20\23\247\101\54\0\306\57\326\360\173\301\117\205\326\164\311\277\116\203\201\152\167\364\326"
+  "\254\146\46\32\363\335\322\230\111\140\107\164\275\343\355\71\40\27\324\343\154\123\317\166\112\311\231\372\1\47\57\34"
+  "\176\362\154\163\127\73\100\70\337\372\311\343\227\171\151\263\215\120\304\170\234\75\352\331\363\231\67\325\305\232\246\364"
+  "\213\225\174\256\42\333\163\365\261\351\117\57\161\256\172\63\45\200\36\362\112\204\352\16\203\347\10\61\254\246\312\346"
+  "\64\121\371\276\107\377\112\177\333\162\110\312\307\165\173\277\327\155\62\374\272\215\155\331\302\370\4\144\217\353\366\161"
+  "\366\356\376\272\115\155\317\25\14\50\241\265\161\323\327\255\362\46\225\123\355\251\23\320\250\210\322\56\332\144\146\303"
+  "\241\61\340\311\60\10\13\75\227\220\166\374\224\301\142\47\241\373\16\61\331\375\275\64\341\246\260\316\350\325\224\36"
+  "\214\217\310\370\140\351\232\166\306\320\342\204\10\200\4\211\145\211\142\326\104\324\74\237\327\350\57\53\1\324\33\72"
+  "\0\21\64\107\33\0\336\222\10\341\106\132\322\344\376\375\213\214\252\120\356\12\371\312\230\333\136\31\343\123\141\336"
+  "\314\225\341\120\346\102\304\361\277\227\244\165\321\310\35\372\313\204\153\377\122\367\205\142\10\210\122\101\272\123\3\237"
+  "\202\62\374\20\345\7\211\375\134\16\304\234\150\252\147\252\100\243\315\337\321\313\147\251\2\6\360\210\62\243\17\214"
+  "\224\343\207\347\301\242\233\22\270\57\115\51\124\265\202\220\56\266\164\104\111\72\244\127\350\102\15\230\256\316\100\177"
+  "\365\10\21\275\145\265\257\266\7\41\207\122\263\40\365\351\325\165\310\163\316\232\65\15\104\52\253\244\40\253\355\107"
+  "\366\10\31\74\171\323\121\234\104\351\0\47\121\202\127\0\206\27\101\111\0\300\156\61\6\257\253\121\53\12\233\40"
+  "\0\342\106\33\252\152\214\25\160\67\43\162\31\374\152\202\257\165\110\116\310\250\142\51\367\15\245\244\264\175\344\215"
+  "\111\216\135\126\77\167\331\227\274\134\154\212\303\53\162\245\350\343\312\344\110\274\310\72\26\151\274\134\373\360\245\253"
+  "\345\132\235\75\277\264\211\66\72\221\111\265\335\154\337\263\275\231\236\370\27\135\123\364\20\32\271\205\120\201\17\243"
+  "\221\216\66\104\24\244\112\76\260\22\256\213\21\101\122\100\107\160\145\240\35\21\141\11\14\270\132\366\130\30\362\142"
+  "\233\163\207\36\345\247\225\3\371\211\204\52\135\333\243\112\245\237\337\262\37\20\106\272\346\141\244\105\366\42\276\201"
+  "\341\112\245\116\213\337\174\317\32\170\152\216\314\60\3\117\315\131\50\123\43\64\25\342\114\347\204\234\223\376\240\54"
+  "\224\61\41\57\145\62\31\310\65\142\327\213\162\325\274\121\323\254\121\274\317\136\36\130\331\7\126\366\116\260\262\17"
+  "\301\332\255\301\230\260\313\12\233\276\236\305\134\11\246\171\71\24\235\373\340\13\144\360\201\67\31\143\110\54\30\103"
+  "\136\120\126\227\133\253\175\266\376\263\221\77\133\151\165\125\206\301\114\263\251\330\36\11\336\264\336\132\310\55\226\132"
+  "\15\220\113\255\34\203\274\332\253\65\57\344\107\377\350\36\361\362\171\173\350\164\376\67\205\261\25\344\44\35\152\35"
+  "\37\145\255\157\247\367\226\355\253\361\346\172\2\65\371\376\144\50\231\44\275\54\241\206\356\11\365\67\156\165\54\150"
+  "\265\130\24\167\105\107\162\6\106\222\125\34\262\337\310\47\371\4\37\267\314\160\203\167\273\232\274\335\207\302\4\256"
+  "\3\52\7\227\222\15\364\244\333\30\366\235\31\241\206\164\36\251\126\147\174\45\73\345\140\374\151\121\146\224\245\322"
+  "\211\270\323\355\264\375\374\64\351\325\374\331\43\156\352\227\213\233\302\73\246\32\235\344\240\17\156\330\374\327\226\162"
+  "\53\311\241\247\107\270\321\221\161\42\306\356\312\242\167\343\331\43\326\351\166\202\32\50\116\252\1\360\252\207\4\172"
+  "\121\373\147\174\245\1\116\351\160\136\140\133\125\145\160\145\226\373\341\5\142\142\242\223\106\30\76\316\343\207\152\204"
+  "\64\361\340\306\5\17\307\105\122\256\3\214\374\300\377\337\210\324\22\314\200\224\22\42\122\112\210\326\4\243\103\351"
+  "\37\134\162\70\227\54\321\144\244\123\163\75\336\276\316\46\63\255\171\106\343\221\156\140\236\77\325\300\342\271\162\140"
+  "\127\306\173\307\344\173\262\367\245\143\316\164\377\227\145\277\17\76\367\100\247\340\325\316\54\216\24\142\222\364\203\373"
+  "\7\250\174\14\267\14\107\42\111\304\244\325\47\55\61\176\150\211\67\240\45\122\164\262\173\320\305\106\130\220\175\153"
+  "\23\62\122\117\220\330\312\35\245\200\344\325\251\10\252\123\61\242\116\305\60\245\271\46\373\307\105\143\155\247\100\135"
+  "\214\14\266\115\56\23\154\33\41\205\103\141\144\355\152\104\134\155\335\303\175\7\326\276\225\105\271\134\24\134\55\316"
+  "\376\221\124\216\163\130\304\310\172\273\177\135\110\331\355\337\26\246\0\133\76\316\244\53\315\166\116\211\337\105\157\234"
+  "\223\236\267\117\364\165\164\52\251\101\51\44\45\53\245\27\362\346\110\311\141\46\325\362\233\324\356\17\61\303\371\117"
+  "\61\122\45\237\40\344\204\136\14\104\35\203\222\70\315\165\256\13\102\241\204\234\104\204\40\24\30\23\3\206\354\203"
+  "\61\63\60\146\6\327\27\214\231\5\223\205\267\260\204\135\70\274\345\110\331\246\167\116\164\155\346\270\54\366\364\234"
+  "\177\120\341\140\145\121\211\23\367\220\7\273\323\126\133\334\321\13\46\121\212\27\332\267\54\6\104\227\273\305\122\340"
+  "\377\142\335\234\323\54\42\172\137\276\115\137\150\203\4\231\165\247\22\217\44\371\107\56\377\23\363\223\112\34\44\340"
+  "\302\44\141\325\135\135\323\346\75\252\76\310\346\72\125\172\114\113\114\73\370\217\310\150\142\144\164\14\365\215\4\71"
+  "\143\11\54\142\204\70\177\206\261\275\26\124\236\120\210\222\142\247\43\362\52\264\153\243\41\157\314\274\324\311\204\7"
+  "\60\303\23\207\113\171\16\67\177\160\270\137\207\303\75\220\253\104\16\227\102\16\67\107\70\334\234\343\160\251\72\154"
+  "\340\346\316\7\347\374\125\326\225\34\52\256\116\112\340\241\55\201\43\105\373\302\173\47\160\215\173\352\63\141\247\70"
+  "\75\13\174\210\277\66\76\102\20\31\72\256\356\215\211\316\42\312\46\372\353\266\241\103\353\13\137\231\45\213\242\23"
+  "\217\23\12\260\265\175\133\50\236\240\365\16\220\246\271\327\115\347\120\234\213\34\52\347\33\115\3\347\164\17\255\66"
+  "\355\271\121\172\105\7\215\34\304\42\26\226\364\141\242\146\117\237\226\2\51\51\157\101\64\74\247\121\226\325\103\327"
+  "\350\204\370\146\63\107\252\165\267\330\247\146\205\37\346\235\73\227\333\154\127\121\254\317\31\244\342\317\104\374\51\26"
+  "\364\15\304\212\276\201\124\322\127\152\131\262\222\110\125\102\75\261\114\350\134\374\51\216\212\211\243\142\342\250\230\70"
+  "\52\46\216\212\111\365\110\305\121\61\161\124\114\34\225\57\216\312\27\107\345\213\243\362\305\121\371\342\250\20\367\364"
+  "\316\1\171\30\11\231\373\202\17\1\151\241\120\221\56\114\104\314\122\310\322\31\16\244\242\175\15\64\240\304\243\177"
+  "\335\21\13\367\265\157\361\65\70\44\151\152\361\65\340\72\163\233\276\301\232\317\23\213\125\13\301\327\26\153\36\204"
+  "\220\137\132\54\272\17\225\126\317\142\346\54\202\237\63\213\317\143\370\171\140\361\71\264\51\172\241\305\334\221\245\263"
+  "\71\53\36\374\74\266\350\35\231\273\5\305\372\160\345\175\233\303\6\227\316\267\331\167\177\246\0\231\322\172\207\163"
+  "\367\55\126\76\10\340\347\66\53\237\302\317\155\316\53\224\120\230\305\312\63\70\170\146\261\164\375\175\264\77\137\353"
+  "\47\51\41\234\215\66\226\165\307\307\265\265\214\123\156\230\122\164\121\147\64\104\337\346\124\15\77\340\327\41\162\261"
+  "\16\351\304\353\140\265\14\103\126\1\234\60\165\217\360\143\336\334\214\234\26\213\226\170\263\16\343\205\132\46\224\201"
+  "\347\203\50\31\337\0\343\3\27\30\357\152\142\74\6\207\361\43\146\374\261\140\374\10\2\176\4\201\120\10\236\37"
+  "\101\300\217\40\20\102\47\370\21\4\374\10\202\304\102\21\100\364\212\35\276\200\1\130\175\150\36\260\123\324\317\35"
+  "\330\237\20\156\274\225\40\347\213\42\164\50\112\343\241\50\215\207\242\64\36\172\146\321\253\122\60\303\320\67\213\116"
+  "\312\157\75\302\5\252\374\230\235\271\160\310\357\127\10\125\146\54\251\243\0\46\55\161\53\205\257\125\75\271\56\175"
+  "\356\106\340\251\75\104\102\13\20\103\107\177\172\7\230\124\245\302\16\7\200\321\154\214\167\317\171\121\41\166\41\110"
+  "\50\202\27\74\214\36\376\224\137\307\237\362\50\351\110\364\247\204\41\22\361\207\341\62\102\1\230\21\52\230\104\60"
+  "\237\335\360\231\271\176\163\273\150\204\15\105\363\121\52\136\205\251\150\230\112\304\133\65\21\15\123\211\150\230\112\304"
+  "\226\23\321\60\225\110\300\34\361\345\130\174\71\226\136\26\231\164\54\336\346\261\70\205\130\234\102\50\11\6\342\24"
+  "\302\304\154\253\122\335\300\111\144\266\124\51\277\115\314\166\52\345\267\163\263\225\112\365\155\112\260\121\251\276\215\375"
+  "\21\142\322\334\154\237\122\316\67\34\41\142\245\4\333\224\162\302\41\301\62\245\34\165\114\260\113\51\77\116\11\126"
+  "\51\345\36\173\4\243\222\162\316\61\301\52\243\374\70\40\330\144\224\37\173\4\213\214\162\237\23\202\101\105\331\163"
+  "\104\60\247\50\77\346\345\160\136\35\13\171\205\60\344\25\302\20\136\170\25\116\341\16\142\26\53\305\242\222\260\116"
+  "\120\210\372\354\203\230\201\323\72\277\146\257\333\375\317\77\327\371\146\243\17\235\0\351\145\6\6\144\20\46\106\231"
+  "\220\357\121\62\350\70\10\34\341\107\252\355\162\76\105\227\214\224\176\303\155\237\301\245\12\340\161\175\206\244\120\167"
+  "\247\175\6\206\171\6\303\372\324\245\61\230\26\277\60\47\233\140\307\331\42\221\302\326\320\231\330\304\274\350\25\103"
+  "\305\353\244\310\61\356\203\321\74\15\172\163\254\251\313\36\153\22\135\170\257\264\107\41\214\365\107\41\232\231\365\125"
+  "\141\77\370\222\341\244\10\312\61\153\71\17\256\151\55\347\41\51\112\167\202\265\304\23\135\107\102\246\353\310\233\271"
+  "\134\357\42\123\201\163\42\121\273\213\230\213\370\32\140\351\34\153\322\236\344\34\353\13\145\332\142\334\207\30\332\334"
+  "\216\0\356\67\325\326\327\155\376\164\340\26\40\335\302\202\323\146\217\304\222\77\40\301\314\45\324\366\154\244\107\216"
+  "\210\150\55\211\42\102\244\262\257\6\217\362\63\247\5\123\73\344\74\350\360\227\306\64\116\272\115\136\212\114\267\11"
+  "\42\343\135\0\342\217\160\146\222\36\64\363\36\210\372\103\127\71\235\166\225\331\154\322\253\255\131\145\336\327\51\376"
+  "\220\62\335\352\44\72\203\3\251\131\255\222\350\226\351\116\210\20\26\30\45\6\207\231\256\150\54\105\5\317\365\315"
+  "\367\107\173\270\203\343\346\174\110\216\212\14\150\130\2\213\316\67\352\2\220\231\376\34\132\311\22\122\301\337\50\126"
+  "\224\131\326\21\104\156\163\322\162\75\337\230\17\314\117\344\76\2\323\263\16\301\364\146\312\147\167\347\122\153\70\44"
+  "\26\151\31\361\206\303\216\234\316\16\270\226\205\11\161\177\321\374\301\302\36\54\314\31\13\203\151\303\7\60\50\367"
+  "\374\304\72\327\44\103\162\115\62\377\236\371\11\26\327\30\361\316\366\50\125\312\267\271\63\156\61\314\233\101\147\67"
+  "\124\355\121\315\215\170\77\274\243\144\220\20\41\103\324\243\271\261\230\113\152\73\263\120\150\366\110\11\145\52\355\321"
+  "\117\245\232\312\320\63\316\106\32\313\171\110\12\357\215\213\171\365\43\346\161\227\61\217\273\214\171\135\60\346\161\227"
+  "\61\217\145\201\136\122\240\267\34\223\101\11\260\4\11\54\41\102\32\22\21\322\220\210\106\257\104\204\64\304\42\244"
+  "\41\116\107\370\364\347\43\374\343\11\33\341\53\116\374\61\276\342\164\204\273\67\11\106\270\173\373\255\330\237\267\364"
+  "\104\22\274\207\67\346\131\156\2\35\333\261\232\132\344\166\341\72\245\26\37\363\264\215\314\333\243\67\25\47\263\161"
+  "\342\33\56\32\130\227\274\344\31\340\2\162\145\76\200\324\122\326\220\13\141\26\362\340\177\70\220\137\363\121\362\43"
+  "\237\177\113\235\205\221\131\170\370\235\5\136\153\75\363\266\25\14\225\31\302\106\342\104\21\323\121\316\240\241\366\234"
+  "\307\366\175\277\330\75\347\161\110\21\374\320\144\21\104\264\363\17\3\154\131\171\257\45\374\35\225\360\167\124\42\274"
+  "\46\160\5\236\125\45\102\332\13\376\226\114\375\253\73\361\16\117\67\320\132\176\76\116\67\55\127\3\225\246\177\52"
+  "\150\172\135\57\246\201\252\303\170\66\204\45\20\361\266\132\345\225\227\306\171\55\52\160\26\145\17\253\265\361\125\334"
+  "\334\355\36\310\255\272\226\22\253\256\261\254\252\353\235\71\137\352\242\117\21\252\114\230\332\247\124\155\177\327\243\342"
+  "\336\342\246\263\200\51\44\333\174\23\307\342\326\102\152\330\274\170\136\347\33\304\222\142\164\346\202\264\215\174\32\14"
+  "\201\63\164\271\146\141\212\136\143\312\112\230\147\243\373\110\275\45\322\216\240\33\162\235\33\40\227\36\177\316\267\137"
+  "\157\170\37\344\215\300\166\342\353\141\175\315\147\243\36\336\72\333\3\166\161\130\253\36\165\13\276\317\213\227\143\146"
+  "\152\344\302\275\336\15\223\263\104\343\71\242\301\226\55\267\207\242\272\253\135\344\115\122\307\311\301\255\251\267\266\250"
+  "\367\26\346\141\277\332\335\175\223\257\252\267\301\167\225\72\267\367\307\337\57\232\5\220\347\117\275\31\6\116\367\222"
+  "\334\134\67\153\60\355\301\174\330\156\41\256\210\167\352\226\247\0\353\343\224\353\115\274\146\227\347\124\232\72\3\333"
+  "\103\305\317\240\137\51\123\115\201\174\365\103\135\144\100\270\40\372\274\371\100\113\134\375\60\170\212\64\365\175\60\145"
+  "\231\257\274\243\111\202\216\72\57\116\261\323\51\207\56\243\330\331\15\13\133\34\132\304\264\303\145\65\164\331\263\262"
+  "\11\166\162\275\63\125\104\10\124\45\22\14\333\327\354\317\172\107\330\261\174\260\337\22\340\302\10\105\171\354\372\362"
+  "\370\342\121\45\305\300\7\356\324\364\116\222\171\13\251\171\35\34\70\115\262\136\245\153\137\357\255\24\373\207\173\42"
+  "\160\323\365\346\120\176\353\370\167\167\370\173\227\263\341\110\356\263\67\341\104\326\317\106\235\111\345\365\6\336\340\313"
+  "\265\164\367\335\146\361\122\232\144\372\262\132\34\153\26\365\203\20\113\246\350\371\370\51\17\115\327\0\130\334\143\367"
+  "\150\76\34\31\335\241\163\276\33\32\364\265\15\132\202\255\231\241\364\230\140\335\305\53\137\230\121\103\7\253\322\27"
+  "\134\314\25\263\271\27\25\127\45\5\312\242\275\252\271\247\65\155\333\243\70\376\320\231\27\135\200\4\5\160\210\301"
+  "\360\50\347\11\320\227\3\351\245\25\212\264\247\53\120\47\46\42\152\330\47\126\315\313\130\347\352\56\110\301\242\300"
+  "\211\75\157\131\233\12\243\350\227\113\144\155\160\353\264\7\174\175\307\347\327\242\142\6\206\272\152\107\250\271\113\213"
+  "\152\273\170\346\64\240\313\337\247\105\366\262\250\362\267\114\174\272\253\265\302\134\152\237\253\201\166\176\153\351\346\166"
+  "\336\235\307\325\76\371\73\333\157\113\364\256\276\226\362\146\356\353\165\161\271\272\57\123\256\153\247\7\334\66\357\64"
+  "\33\41\223\166\107\65\303\213\314\23\100\263\73\344\60\357\54\53\242\356\214\365\43\147\352\160\75\333\260\124\214\133"
+  "\207\52\156\175\5\163\7\40\57\256\352\265\213\271\247\127\74\167\225\334\151\13\107\304\242\311\60\371\75\46\254\105"
+  "\217\172\302\226\120\31\267\314\317\164\54\274\167\240\204\147\45\316\241\311\360\355\160\265\307\213\107\67\316\115\127\350"
+  "\172\0\222\310\226\320\272\241\150\223\72\64\327\351\355\63\113\220\5\201\57\147\100\63\165\40\64\316\350\311\135\56"
+  "\75\141\230\173\75\35\316\41\77\150\16\261\2\103\254\5\311\142\74\54\200\232\7\227\302\156\50\343\104\30\50\266"
+  "\52\335\61\63\330\320\115\234\1\111\216\173\26\160\250\274\34\141\345\366\6\35\217\305\143\155\72\172\36\151\50\47"
+  "\57\222\212\116\305\33\300\104\121\64\337\116\275\21\223\354\223\311\10\247\67\211\141\353\167\36\202\142\5\325\13\374"
+  "\260\251\335\265\115\55\232\121\243\335\233\354\303\346\341\357\160\247\41\222\42\2\257\212\253\315\214\364\213\332\340\170"
+  "\173\315\224\244\23\102\233\36\157\353\23\313\173\22\111\46\61\17\133\344\116\72\232\21\63\245\316\25\122\335\375\354"
+  "\371\174\372\75\27\120\370\260\334\244\124\47\315\302\365\342\31\43\166\71\37\255\146\317\25\245\320\364\312\137\356\126"
+  "\365\273\37\212\102\226\57\267\137\74\303\15\144\54\332\66\322\123\200\125\165\231\132\352\11\134\212\75\176\210\26\114"
+  "\273\143\301\7\51\100\343\136\362\21\212\254\4\110\31\40\215\263\303\111\70\303\311\57\262\331\26\57\223\170\105\336"
+  "\26\233\103\106\161\203\114\351\362\0\36\17\301\347\322\76\153\212\133\16\166\173\270\367\120\360\341\162\27\361\120\40"
+  "\107\250\331\75\243\315\114\141\146\23\55\167\235\121\316\254\253\207\326\200\16\122\65\173\336\252\241\12\206\324\250\373"
+  "\224\76\110\313\145\300\211\160\372\252\250\142\242\375\250\254\175\373\354\225\147\345\10\130\351\124\143\266\57\350\252\327"
+  "\142\14\366\15\2\357\43\372\206\370\333\103\54\66\13\360\136\40\361\64\127\201\107\267\175\210\304\155\350\251\33\57"
+  "\142\234\211\43\143\102\176\173\363\336\200\241\241\13\322\261\15\76\77\34\321\164\154\246\260\125\376\326\122\230\20\245"
+  "\320\175\246\60\35\160\47\104\157\122\203\344\305\361\103\272\271\254\23\136\150\6\6\104\170\260\27\147\160\141\204\166"
+  "\250\110\276\136\73\147\207\41\322\37\63\342\342\361\301\75\31\13\320\106\31\125\341\130\46\231\134\60\211\103\232\140"
+  "\302\277\367\20\114\256\131\60\21\53\231\225\375\303\207\264\342\154\15\247\27\141\352\276\104\21\6\244\220\170\310\64"
+  "\17\231\306\251\114\123\223\334\150\231\106\177\216\16\200\27\75\144\240\17\223\201\0\123\271\172\241\150\125\155\127\155"
+  "\157\242\20\263\156\204\23\245\220\361\272\70\106\55\66\357\264\117\226\113\361\167\366\143\307\104\361\101\212\312\376\133"
+  "\213\16\375\56\376\54\277\211\277\227\342\317\367\7\264\224\50\37\265\141\155\63\302\305\162\346\101\65\61\340\361\125"
+  "\251\62\63\117\375\5\26\313\225\366\377\332\241\65\275\40\232\317\143\226\4\211\27\316\243\376\237\27\5\222\377\245"
+  "\250\6\366\327\257\143\304\364\114\264\374\266\327\11\10\255\135\336\13\23\160\57\161\3\75\222\76\136\211\210\173\151"
+  "\41\277\21\1\300\204\74\131\244\135\117\201\275\322\324\355\351\133\301\344\267\176\215\225\133\24\367\377\274\335\53\167"
+  "\10\141\374\310\340\175\57\211\164\76\225\376\23\20\3\277\172\127\47\274\154\157\265\26\23\45\104\203\277\146\257\145"
+  "\233\341\200\213\224\63\266\355\7\214\202\303\325\57\243\357\165\377\101\104\3\333\204\146\244\101\307\24\0\255\365\240"
+  "\15\42\264\146\320\235\227\207\27\351\341\322\151\211\374\105\131\20\233\315\225\15\351\33\147\163\330\72\220\61\117\21"
+  "\204\337\220\50\254\363\132\1\25\163\51\153\133\101\250\163\255\21\74\153\13\132\64\57\51\107\356\22\35\376\361\167"
+  "\357\205\316\20\345\263\253\352\70\103\320\63\260\171\45\235\152\334\135\147\132\172\75\154\224\76\152\105\220\60\306\327"
+  "\371\110\251\157\172\135\264\374\266\71\337\100\110\275\222\251\146\205\200\164\165\173\345\364\130\132\166\204\352\63\313\45"
+  "\100\311\214\163\244\313\305\340\3\155\230\35\325\143\52\35\242\215\304\115\206\372\140\27\306\73\17\41\101\303\225\167"
+  "\134\0\206\204\256\61\250\161\321\342\6\265\174\125\263\22\310\167\237\347\266\266\204\71\245\114\40\354\116\126\314\225"
+  "\314\170\156\264\367\55\161\62\120\360\342\224\200\326\262\135\3\172\276\162\4\20\244\141\305\142\312\351\16\147\162\151"
+  "\316\313\55\344\373\5\230\44\144\62\357\272\203\326\113\365\306\262\132\64\106\371\156\252\34\40\164\276\241\241\260\140"
+  "\35\11\221\373\232\346\306\257\33\240\174\1\204\64\16\154\162\144\115\51\204\310\121\221\172\177\53\245\71\305\127\234"
+  "\62\144\317\143\221\131\10\74\226\30\36\54\241\356\210\240\117\337\67\257\67\127\111\104\127\111\316\27\41\342\176\200"
+  "\42\247\76\374\324\153\162\241\177\347\27\6\336\341\337\11\231\153\220\145\21\61\271\135\351\115\270\16\57\306\165\230"
+  "\53\16\221\64\72\123\165\270\330\214\306\175\127\233\242\105\61\216\357\153\160\162\32\115\157\250\54\367\316\361\213\330"
+  "\270\115\132\131\356\373\31\223\26\342\60\264\363\16\12\150\265\361\14\312\367\21\274\245\0\375\354\110\306\16\307\355"
+  "\47\306\21\6\176\110\73\322\22\266\170\76\204\166\235\204\155\352\371\357\320\274\363\247\325\236\73\333\121\236\55\213"
+  "\77\304\205\74\327\52\153\54\14\4\36\34\314\43\232\64\167\311\275\351\122\210\333\107\157\15\134\140\346\143\372\206"
+  "\340\326\361\310\304\157\275\334\270\137\157\204\153\143\137\254\144\327\106\216\170\62\44\107\303\141\67\330\121\100\230\167"
+  "\310\137\152\102\14\44\162\176\206\134\142\324\322\143\106\102\214\2\114\114\263\320\157\256\145\364\232\164\377\223\237\146"
+  "\137\43\334\333\127\315\300\164\100\350\221\154\244\220\303\316\30\254\256\103\223\134\331\336\215\116\217\226\253\3\53\40"
+  "\103\374\256\15\362\374\156\140\146\166\41\236\224\205\376\76\311\135\257\161\20\265\304\143\250\261\360\335\346\222\371\76"
+  "\56\54\163\350\335\366\135\33\263\71\170\53\321\220\315\141\133\251\117\145\223\122\43\363\261\260\310\201\33\104\13\176"
+  "\114\146\132\153\31\201\377\350\223\145\114\316\232\243\104\341\71\245\367\74\316\302\115\117\352\143\231\262\142\330\322\351"
+  "\135\203\60\301\251\315\335\267\242\301\252\64\32\230\304\222\104\13\24\156\211\112\214\2\342\272\334\145\313\174\261\231"
+  "\20\12\274\346\41\276\316\0\275\345\45\321\56\167\220\46\115\213\365\125\2\136\324\331\173\150\100\105\212\140\265\52"
+  "\143\271\212\64\362\112\62\123\172\101\254\362\171\15\37\144\152\36\344\334\64\110\361\146\67\240\0\112\42\273\131\137"
+  "\51\50\267\64\25\150\325\366\127\322\231\255\216\241\132\370\20\225\247\240\75\122\77\274\77\75\376\77\273\177\170\117"
+  "\277\377\327\223\367\364\137\177\364\257\156\252\153\332\23\166\235\211\1\247\237\170\160\235\131\1\247\237\170\70\135\112"
+  "\300\217\101\55\33\340\301\234\103\36\62\166\1\73\314\247\174\167\143\134\133\127\333\305\245\344\246\262\372\271\231\54"
+  "\214\273\254\351\100\224\174\62\40\157\41\17\26\53\111\134\52\52\175\266\333\354\307\316\367\44\61\55\377\221\111\315"
+  "\24\331\113\375\342\207\202\231\157\105\336\33\50\314\215\15\153\342\357\104\377\317\65\377\237\335\77\174\217\5\307\153"
+  "\321\377\63\231\47\361\74\360\203\354\37\201\227\362\227\344\113\345\70\316\352\74\240\317\232\21\175\326\14\151\123\31"
+  "\374\11\256\271\37\272\137\66\261\20\202\346\346\254\70\262\143\124\74\12\322\126\5\230\35\331\220\111\215\311\64\27"
+  "\11\25\377\36\7\66\370\167\273\270\43\265\274\145\236\266\346\340\276\150\202\247\306\312\152\250\220\144\36\355\150\121"
+  "\11\225\121\10\375\16\114\136\154\216\50\225\311\304\230\46\127\50\77\360\163\223\21\2\20\3\163\236\330\163\210\352"
+  "\232\20\275\252\265\262\301\304\276\303\107\156\133\44\135\165\135\254\226\253\70\72\253\120\154\336\134\26\331\77\274\71"
+  "\166\105\20\275\36\374\100\175\2\61\365\163\106\26\344\74\160\201\337\162\121\142\202\74\276\160\271\242\32\24\5\17"
+  "\320\61\204\324\41\144\62\207\160\112\51\357\55\132\211\234\363\37\13\142\372\142\105\310\337\66\320\251\206\264\76\145"
+  "\266\356\41\331\265\11\3\304\150\104\227\136\33\43\44\141\37\37\373\163\261\375\321\42\71\204\326\161\364\272\357\115"
+  "\170\75\234\333\347\164\337\320\272\304\35\72\114\61\103\165\327\222\171\13\314\316\370\106\317\33\351\17\123\360\116\63"
+  "\223\67\260\113\161\105\65\200\134\363\307\332\73\130\217\374\327\137\330\116\56\156\245\65\37\243\51\117\217\337\123\354"
+  "\363\111\171\167\266\321\236\365\162\237\137\220\214\355\126\131\64\240\103\45\325\205\323\140\132\111\146\151\331\313\354\215"
+  "\271\51\145\37\45\140\155\351\0\130\253\100\103\30\172\77\2\155\113\171\126\172\312\353\317\42\55\325\202\176\365\31"
+  "\45\367\376\65\156\174\60\34\23\161\13\323\13\65\116\12\101\57\25\163\131\214\140\63\26\25\37\256\174\355\100\262"
+  "\330\170\256\320\207\56\132\27\303\241\62\244\227\353\170\5\351\105\135\316\317\17\255\144\276\310\126\346\73\132\276\125"
+  "\167\274\257\176\271\120\213\251\212\353\117\60\221\251\26\123\107\357\274\251\262\33\207\42\67\220\151\54\234\235\142\230"
+  "\375\226\132\143\312\234\251\113\241\312\232\124\51\325\311\324\370\335\114\307\310\242\134\107\144\233\106\75\164\231\166\32"
+  "\305\357\335\161\322\351\330\125\10\206\1\33\210\261\300\101\207\26\362\77\115\73\367\262\117\27\53\135\304\134\326\242"
+  "\116\155\117\162\342\362\44\77\12\141\14\74\311\206\162\27\62\130\113\210\250\302\242\132\273\373\124\165\307\122\140\261"
+  "\360\175\117\51\340\130\31\353\250\366\61\364\356\133\14\10\146\270\233\342\311\76\26\22\46\106\123\302\220\260\53\22"
+  "\216\240\233\57\276\277\73\3\124\204\121\24\352\40\272\113\150\136\65\312\41\65\234\73\74\334\302\205\145\236\174\120"
+  "\221\313\256\275\63\220\13\371\166\51\305\5\3\224\52\213\250\52\214\110\301\325\241\100\223\21\305\126\105\242\247\241"
+  "\6\11\63\231\237\114\163\230\112\364\13\261\375\10\333\347\10\11\341\37\133\301\50\261\256\247\25\73\55\100\224\30"
+  "\162\1\334\137\1\242\324\131\74\176\74\203\231\42\344\340\374\151\313\14\55\56\210\102\165\7\71\205\231\161\217\231"
+  "\27\363\262\134\210\31\164\353\6\244\34\273\337\26\233\265\370\144\7\260\251\4\370\152\256\317\255\213\201\120\307\325"
+  "\13\230\44\311\156\377\40\221\37\244\362\203\371\144\330\326\200\75\260\255\17\154\353\57\207\155\275\130\6\146\71\341"
+  "\262\352\53\136\47\104\62\260\227\252\114\141\123\347\253\76\162\165\43\360\101\45\3\337\32\366\167\270\174\216\225\255"
+  "\334\131\72\14\167\267\24\21\166\115\353\162\115\1\143\327\264\56\23\306\223\135\343\164\243\201\120\213\53\237\26\160"
+  "\357\245\62\137\364\231\67\75\114\300\71\104\337\17\154\60\372\203\112\7\0\250\145\75\112\206\145\215\77\337\162\110"
+  "\72\361\266\165\74\247\272\266\30\1\132\62\200\5\244\374\311\346\21\132\326\65\350\133\100\126\27\263\242\6\112\310"
+  "\225\142\17\141\113\74\240\130\225\253\23\246\104\346\262\167\153\362\242\52\301\313\152\351\0\164\170\124\107\265\213\315"
+  "\75\357\337\5\235\233\72\224\347\323\374\33\67\132\104\362\72\152\316\324\201\365\357\362\355\252\366\36\373\16\235\44"
+  "\237\106\177\250\36\144\354\201\26\214\242\232\0\236\13\37\25\7\221\35\350\171\24\162\342\255\23\232\135\210\212\220"
+  "\353\3\75\331\266\374\363\312\100\302\214\304\40\335\102\204\175\366\341\170\300\204\204\21\146\37\11\21\146\366\10\141"
+  "\66\1\100\370\52\267\57\275\131\50\354\25\54\36\100\276\244\0\214\356\263\213\12\271\44\71\376\201\270\174\40\56"
+  "\37\210\113\7\210\113\21\214\107\114\145\116\100\342\11\247\330\32\210\67\334\62\220\377\242\316\367\213\202\374\156\16"
+  "\153\212\0\17\115\150\1\317\51\132\300\67\24\3\271\73\274\251\317\234\241\5\74\4\64\50\303\11\215\313\251\160"
+  "\251\214\254\352\251\26\365\357\15\375\365\200\146\176\14\64\63\230\351\213\337\174\44\64\223\146\36\215\120\127\253\140"
+  "\225\244\131\16\33\205\305\375\71\346\32\27\153\301\3\115\233\130\256\15\341\345\102\273\127\123\354\336\272\264\375\35"
+  "\262\70\251\304\220\252\324\20\136\64\113\11\54\164\7\116\45\232\10\36\350\124\322\106\307\330\106\307\110\115\251\261"
+  "\350\124\353\340\46\337\151\164\223\242\100\324\75\243\123\57\130\55\152\162\164\352\133\131\354\366\171\121\255\155\41\252"
+  "\30\42\165\275\335\277\56\252\337\144\230\252\11\153\312\3\122\333\107\74\154\265\103\221\326\333\224\227\371\126\302\211"
+  "\312\260\321\36\71\333\265\4\133\221\40\242\213\62\23\237\234\200\265\2\204\265\171\364\333\34\171\357\67\71\143\152"
+  "\373\324\227\360\253\134\176\330\16\362\52\215\114\372\327\337\374\110\232\132\371\274\331\334\74\274\365\74\60\17\74\1"
+  "\143\365\301\140\175\60\132\37\14\327\7\343\365\301\200\175\60\142\37\14\331\7\143\146\140\314\14\256\57\30\63\3"
+  "\143\146\140\314\14\214\231\201\61\63\60\146\6\306\314\346\327\237\42\367\224\160\212\4\366\154\71\12\245\362\255\316"
+  "\240\10\131\146\177\7\41\326\350\143\50\227\300\44\217\251\251\213\303\6\140\13\272\233\304\256\154\0\57\171\151\252"
+  "\304\17\57\53\60\266\341\363\325\235\230\203\336\35\165\172\157\106\14\214\274\21\73\25\243\56\236\261\136\15\376\51"
+  "\137\135\1\263\224\40\243\64\27\326\161\76\312\114\141\221\341\243\16\172\321\270\75\144\102\320\236\250\63\241\216\34"
+  "\311\36\52\131\153\245\30\162\321\105\40\72\56\344\342\122\323\234\204\23\315\206\146\141\232\177\247\305\332\164\222\271"
+  "\7\276\216\54\276\366\147\106\327\266\372\353\271\302\121\116\372\70\65\233\254\325\37\167\301\162\373\363\136\363\276\5"
+  "\262\77\1\2\354\316\357\33\116\20\122\20\56\232\370\4\151\322\31\25\375\172\304\326\356\25\346\142\71\20\77\143"
+  "\174\155\313\61\237\331\201\347\107\54\7\242\175\47\327\266\34\210\113\112\17\232\37\261\36\110\254\147\172\165\353\341"
+  "\317\54\235\14\43\26\4\61\57\314\257\156\101\230\321\213\217\177\30\103\174\0\217\225\342\71\71\37\262\37\100\210"
+  "\201\246\153\74\224\315\315\365\54\304\301\325\52\371\52\133\76\143\306\174\217\56\72\13\115\56\252\155\256\236\217\116"
+  "\210\163\46\366\207\204\134\177\157\13\305\23\334\345\6\345\161\356\165\365\240\271\143\361\116\100\266\256\335\335\151\32"
+  "\224\327\273\316\301\245\337\252\167\315\353\304\170\110\4\54\300\13\172\223\312\347\4\71\275\267\322\115\117\245\261\231"
+  "\112\215\121\54\43\330\64\57\40\233\50\270\335\47\44\47\25\255\225\21\173\267\332\157\167\167\304\12\105\372\372\165"
+  "\331\241\336\221\236\121\123\244\123\327\24\253\347\126\37\244\10\70\247\320\223\104\345\155\210\201\304\147\27\346\155\12"
+  "\124\204\344\336\222\234\157\122\246\230\356\147\214\272\162\101\332\241\51\55\10\76\10\234\365\75\204\63\5\112\63\100"
+  "\4\277\217\155\276\117\340\367\251\315\367\100\332\363\175\253\376\143\350\346\146\66\337\247\234\75\141\76\40\271\120\344"
+  "\104\47\100\172\313\371\245\231\344\150\114\311\124\73\52\260\276\276\43\337\211\121\2\361\276\347\176\164\41\136\43\245"
+  "\51\43\143\1\174\346\104\343\306\322\123\371\361\115\23\123\70\214\230\142\67\222\40\142\322\361\223\17\243\245\370\242"
+  "\214\11\61\337\370\351\5\274\32\342\234\151\326\135\127\274\3\261\320\370\363\213\317\71\275\344\76\63\104\357\144\336"
+  "\305\347\74\237\51\376\101\24\323\230\350\307\211\44\377\220\350\3\212\104\37\120\50\5\226\212\102\134\40\12\161\101"
+  "\50\376\24\73\12\304\216\2\251\145\161\220\114\24\55\231\50\132\62\121\264\144\342\250\230\70\52\46\216\212\111\213"
+  "\43\216\212\371\227\220\103\31\160\47\5\11\44\50\137\45\206\105\300\336\30\107\26\237\263\271\242\16\7\355\363\0"
+  "\10\321\211\147\363\71\230\173\342\333\174\36\51\262\203\20\347\16\76\237\333\254\74\3\336\270\271\125\357\100\376\237"
+  "\133\255\74\24\337\75\233\245\207\144\207\324\133\321\365\317\146\212\112\50\304\357\275\231\242\206\34\361\173\250\376\170"
+  "\126\204\17\307\357\333\314\237\301\365\367\155\346\37\301\365\367\155\306\37\42\337\133\121\57\124\177\231\25\375\204\347"
+  "\13\47\342\57\34\46\104\257\363\216\146\46\274\306\103\273\31\237\234\226\361\236\20\66\31\232\0\116\334\120\41\226"
+  "\24\140\343\172\154\51\120\6\325\365\143\101\331\337\43\200\363\162\103\355\316\217\56\47\121\372\261\103\234\247\306\21"
+  "\62\363\10\101\250\6\366\266\321\106\230\330\131\10\211\351\310\46\42\72\232\322\30\320\224\210\113\114\241\273\14\4"
+  "\333\272\76\376\325\375\20\74\7\45\141\161\342\11\206\233\227\311\351\313\150\103\141\243\15\335\223\354\371\265\361\161"
+  "\236\30\160\106\156\241\241\253\267\310\231\267\105\233\224\124\170\37\111\230\73\135\126\136\103\152\323\222\117\337\5\303"
+  "\4\343\120\123\353\135\171\66\321\76\360\321\161\71\310\264\345\331\311\323\350\75\370\174\114\113\167\305\240\201\226\222"
+  "\107\13\365\70\333\44\64\56\252\355\342\171\263\55\136\232\377\121\141\207\251\256\61\336\346\162\1\52\46\370\14\317"
+  "\124\374\333\374\42\164\374\333\334\234\23\312\160\125\361\355\30\152\63\243\375\232\150\124\63\104\55\101\116\106\173\143"
+  "\311\56\16\155\263\141\134\206\4\141\74\57\71\152\237\245\327\76\45\77\326\314\351\62\203\301\205\146\356\310\303\102"
+  "\362\323\234\171\112\245\150\322\241\357\52\204\223\117\275\46\232\334\146\224\127\166\356\145\245\210\170\152\150\102\224\173"
+  "\22\270\204\120\246\241\204\373\227\30\256\166\313\210\16\40\357\161\247\272\137\124\26\101\24\326\135\334\257\235\237\47"
+  "\12\150\23\274\226\313\326\277\320\145\353\137\361\351\242\233\363\4\47\63\26\41\171\221\20\111\76\327\27\113\371\37"
+  "\363\351\55\363\161\164\151\103\344\265\136\44\153\202\101\306\35\31\367\225\331\364\141\302\50\245\42\121\262\54\270\64"
+  "\245\6\302\17\336\43\25\360\36\251\100\210\244\341\75\122\101\64\45\165\143\71\234\232\345\153\222\141\30\53\256\47"
+  "\316\374\125\264\376\342\271\332\166\71\145\277\211\77\316\146\372\13\263\1\335\2\237\216\372\262\372\271\313\276\124\333"
+  "\315\366\75\333\233\263\213\71\341\53\353\21\174\5\301\371\262\360\342\174\5\172\375\101\366\347\361\211\125\305\74\126"
+  "\101\42\4\364\43\131\255\360\7\324\22\301\324\14\127\353\73\116\137\165\334\350\40\105\22\223\5\274\310\23\250\53"
+  "\243\176\224\275\360\356\262\203\14\110\364\26\314\371\3\22\172\217\3\62\315\1\11\75\344\200\204\2\173\234\317\254"
+  "\264\32\44\324\200\105\227\346\351\41\126\111\363\322\101\153\372\353\226\167\375\17\166\350\163\331\110\205\113\271\254\366"
+  "\105\115\54\2\103\71\21\376\157\20\221\66\366\62\13\241\172\40\165\303\205\310\267\7\232\51\242\341\7\145\145\14"
+  "\105\310\157\30\336\175\126\306\60\64\257\237\125\75\223\102\14\237\155\130\3\257\125\211\77\2\264\326\101\30\23\323"
+  "\44\264\64\20\231\347\320\323\221\221\4\104\210\170\10\41\206\73\365\372\374\202\25\15\220\5\162\117\100\74\2\124"
+  "\374\21\73\311\6\33\316\355\31\117\352\224\361\210\121\14\221\167\367\214\47\362\56\100\67\274\174\56\376\260\224\105"
+  "\220\320\77\26\137\132\26\201\250\360\224\226\302\5\263\176\4\203\362\171\20\252\340\65\371\126\107\26\301\273\175\347"
+  "\35\232\346\136\131\175\325\217\157\301\3\173\37\176\124\5\46\376\3\334\74\46\246\203\304\307\262\344\342\114\207\231"
+  "\43\320\356\67\365\50\22\246\313\322\213\157\101\60\155\250\341\235\357\41\22\166\314\346\27\367\216\172\63\220\131\226"
+  "\267\224\60\130\341\23\131\35\64\305\362\72\347\214\371\372\142\262\56\114\204\334\376\111\26\56\55\0\102\167\261\110"
+  "\115\252\312\144\40\174\163\262\352\76\123\125\16\130\237\312\6\74\375\236\375\330\155\367\325\323\247\366\301\247\77\204"
+  "\112\2\353\35\126\42\100\174\266\350\223\326\53\113\4\364\105\4\332\337\365\270\270\267\270\11\55\140\206\363\366\162"
+  "\325\223\234\160\366\314\326\250\146\26\212\113\137\270\103\305\372\12\102\371\357\312\144\32\170\103\352\171\127\206\155\221"
+  "\167\5\337\224\53\335\204\343\277\66\225\46\372\244\142\333\257\232\372\103\240\246\320\55\155\124\51\357\124\211\156\325"
+  "\327\303\372\252\17\120\75\276\165\266\7\154\345\260\276\345\255\51\300\336\24\264\315\131\156\17\105\165\303\373\305\75"
+  "\152\246\162\73\173\366\46\157\331\33\231\363\251\13\324\334\12\267\322\54\13\270\246\337\206\337\323\103\27\352\62\167"
+  "\253\146\21\0\257\175\33\301\154\55\127\341\362\14\122\267\20\5\134\11\267\254\315\351\352\114\305\216\324\53\264\317"
+  "\212\305\153\126\117\252\137\240\356\211\264\76\333\315\152\275\22\247\136\77\332\55\372\252\125\355\303\42\173\227\337\253"
+  "\37\161\357\51\157\200\154\277\337\356\161\236\337\164\216\74\74\66\253\173\334\55\111\275\22\57\137\352\377\103\64\216"
+  "\146\274\310\103\254\151\376\261\252\351\323\363\367\105\231\77\227\305\142\127\176\333\126\317\273\175\366\226\147\357\376\227"
+  "\343\327\317\247\5\6\345\3\217\263\47\101\301\255\214\260\364\146\171\215\250\376\252\330\176\151\376\27\77\265\75\101"
+  "\251\163\44\233\150\116\246\70\110\157\50\161\121\50\251\376\266\326\34\173\62\354\12\247\145\357\310\123\165\105\261\53"
+  "\56\50\125\102\223\211\356\110\210\311\206\327\313\242\332\174\131\327\332\165\115\212\33\351\375\206\26\273\365\303\367\136"
+  "\113\157\212\223\3\213\157\302\102\317\324\321\165\373\70\140\164\302\304\254\215\162\342\64\255\32\12\205\206\170\116\335"
+  "\261\333\301\206\12\135\266\362\44\266\77\332\116\214\45\373\354\165\373\46\34\361\343\157\351\210\123\216\62\162\142\367"
+  "\167\174\200\135\234\136\303\341\120\145\310\271\24\255\240\226\272\21\247\122\276\167\116\313\164\50\362\232\22\277\34\212"
+  "\115\136\374\45\234\256\146\215\366\346\233\24\332\104\371\55\125\57\115\340\217\102\361\323\72\111\142\25\204\176\100\56"
+  "\232\21\213\57\54\366\376\265\156\111\130\353\223\2\154\61\257\50\164\101\247\232\50\254\275\73\36\267\73\11\254\147"
+  "\313\143\363\133\342\161\45\126\376\125\252\174\132\177\47\251\15\6\55\73\16\165\236\233\126\345\324\55\270\54\274\236"
+  "\245\104\256\235\372\41\10\77\30\162\154\320\357\211\221\142\56\122\55\225\370\3\225\0\217\307\0\360\312\74\177\175"
+  "\257\337\367\171\225\211\0\26\216\234\123\112\23\273\103\265\124\265\0\321\103\264\26\20\322\107\366\263\173\164\211\265"
+  "\200\71\31\150\63\341\16\340\37\377\361\377\1";
 
 /* lib/stdlib.wo (DEFLATEd, org. size 82626) */
 static unsigned char file_l_42[8274] =
@@ -4654,7 +4654,7 @@ struct memdir directory_l[46] = {
  { "lib/include/wchar.h", 159, 1, 292, &file_l_38[0] },
  { "lib/math.wo", 15163, 1, 160240, &file_l_39[0] },
  { "lib/stat.wo", 1119, 1, 8940, &file_l_40[0] },
- { "lib/stdio.wo", 14821, 1, 188440, &file_l_41[0] },
+ { "lib/stdio.wo", 14829, 1, 188583, &file_l_41[0] },
  { "lib/stdlib.wo", 8274, 1, 82626, &file_l_42[0] },
  { "lib/string.wo", 2123, 1, 22342, &file_l_43[0] },
  { "lib/time.wo", 4875, 1, 45356, &file_l_44[0] },
diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index e23889c..9d7e380 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -363,7 +363,7 @@ char *fgets(char *s, int size, FILE *fp)
   for (size--; size > 0; size -= (int)n) {
     if (fp->cnt <= 0) { /* empty buffer */
       if (_fillbuf(fp) == EOF) {
-        if (s0 == s) return NULL;
+        if (s0 == s || !(fp->flags & _IOEOF)) return NULL;
         break; /* no more data */
       }
       fp->ptr--; fp->cnt++;
-- 
2.43.0


From ac3f904aeca597bbfb10508bdee65461ebf53570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 97/97] fix: initializers of structs keep their type when
 string literals grow the symbol table

---
 c.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index e857ee4..d4ddbdb 100644
--- a/c.c
+++ b/c.c
@@ -1221,11 +1221,12 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
       }
       /* if (offi < asize) nwprintf(pdn, "warning: too few initializers for array"); */
     } else { /* struct or union */
-      size_t i, j, offi;
+      size_t i, j, offi; node_t ftn;
       if (ptn->name && !ndlen(ptn)) {
         node_t *pftn = (node_t *)lookup_eus_type(ptn->ts, ptn->name);
         if (!pftn) n2eprintf(ptn, pdn, "can't initialize incomplete type");
-        else ptn = pftn;
+        /* initializers below may post symbols, moving *pftn (but not its body) */
+        else { ftn = *pftn; ptn = &ftn; }
       }
       for (i = 0, j = 1; i < ndlen(ptn); ++i, ++j) {
         node_t *ptni = ndref(ptn, i), *pfni;
-- 
2.43.0

