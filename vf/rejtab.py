# C14: tables of violations.  Every entry is (key, bad, good): `bad' breaks one rule, `good' is the
# closest text which does not.  All names are declared by the frame in vf/reject.py.

# statements, usable in any block of a function
STMT = [
 # inline assembly
 ("asm", "li = (int)asm(i32.nosuch);", "li = (int)asm(i32.const 1);"),
 ("asm", "li = (int)asm(i32.const);", "li = (int)asm(i32.const 1);"),
 ("asm", "li = (int)asm(i32.const 1.5);", "li = (int)asm(i32.const 15);"),
 ("asm", "ld = (double)asm(f64.const 1);", "ld = (double)asm(f64.const 1.0);"),
 ("asm", "li = (int)asm(i32.const nosuch_$N);", "li = (int)asm(i32.const 12);"),
 ("asm", "li = (int)asm(i32.const li);", "li = (int)asm(i32.const 0);"),
 ("asm", "li = (int)asm(i32.const 1, (int)asm(i32.const li), i32.add);", "li = (int)asm(i32.const 1, (int)asm(i32.const 4), i32.add);"),
 ("asm", "li = (int)asm(i32.const 0, i32.load offset=li);", "li = (int)asm(i32.const 0, i32.load offset=4);"),
 ("asm", "li = (int)asm(i32.const 0, i32.load align=32);", "li = (int)asm(i32.const 0, i32.load align=4);"),
 ("asm", "li = (int)asm(i32.const 0, i32.load offset=(0 - 1));", "li = (int)asm(i32.const 0, i32.load offset=(1 - 0));"),
 ("asm", "li = (int)asm(global.get gi);", "li = (int)asm(i32.const 0);"),
 ("asm", "li = (int)asm(call f0);", "li = (int)asm(i32.const 0);"),
 ("asm", "li = (int)asm(ref.data garr);", "li = (int)asm(i32.const 0);"),
 ("asm", "li = (int)asm(i32.const 1 i32.const 2, i32.add);", "li = (int)asm(i32.const 1, i32.const 2, i32.add);"),
 ("asm", "li = (int)asm(register i31 r_$N, i32.const 1);", "li = (int)asm(register i32 r_$N, i32.const 1);"),
 ("asm", "li = (int(*)(int))asm(i32.const 1, i32.add)();", "li = (int(*)(int))asm(i32.const 1, i32.add)(li);"),
 ("asm", "li = (int(*)(int))asm(i32.const 1, i32.add)(li, 2);", "li = (int(*)(int))asm(i32.const 1, i32.add)(li);"),
 ("asm", "li = (int(*)(int))asm(i32.const 1, i32.add)(ls);", "li = (int(*)(int))asm(i32.const 1, i32.add)(gi);"),
 ("asm", "li = (int)asm(i32.const 1, i32.add)(li);", "li = (int(*)(int))asm(i32.const 1, i32.add)(li);"),
 ("asm", "li = (int)asm((int)5, i32.eqz);", "li = (int)asm((int)asm(i32.const 5), i32.eqz);"),
 ("asm", "li = (int)asm(i32.const 1;", "li = (int)asm(i32.const 1);"),
 # names
 ("undeclared-var", "li = nosuch_$N;", "li = gi;"),
 ("undeclared-var", "nosuch_$N = 3;", "gi = 3;"),
 ("undeclared-var", "pi = &nosuch_$N;", "pi = &garr[0];"),
 ("undeclared-func", "li = nosuch_$N(1);", "li = f1(1);"),
 ("undeclared-func", "nosuch_$N();", "f0();"),
 ("out-of-scope", "{ int q_$N = 1; li = q_$N; } li = q_$N;", "{ int q_$N = 1; li = q_$N; } li = 2;"),
 ("out-of-scope", "{ int q_$N = 1; li = q_$N; } q_$N = li;", "int q_$N = 1; { li = q_$N; } q_$N = li;"),
 ("out-of-scope", "for (int q_$N = 0; q_$N < 1; ++q_$N) { li = q_$N; } li += q_$N;",
                  "for (int q_$N = 0; q_$N < 1; ++q_$N) { li = q_$N; } li += gi;"),
 ("out-of-scope", "if (li) { double z_$N = 2; ld = z_$N; } else { ld = z_$N; }",
                  "if (li) { double z_$N = 2; ld = z_$N; } else { double z_$N = 1; ld = z_$N; }"),
 ("out-of-scope", "{ char *w_$N = ls; ls = w_$N; } { ls = w_$N; }", "{ char *w_$N = ls; ls = w_$N; } { ls = gs; }"),
 ("out-of-scope", "li = q_$N; int q_$N = 1; gi = q_$N;", "int q_$N = 1; gi = q_$N; li = q_$N;"),
 ("undeclared-type", "nosuch_$N *x_$N = NULL;", "struct st *x_$N = NULL;"),
 ("incomplete-type", "struct nosuch_$N x_$N;", "struct st x_$N;"),
 ("incomplete-type", "li = (int)sizeof(struct nosuch_$N);", "li = (int)sizeof(struct st);"),
 ("no-member", "li = lp->nosuch_$N;", "li = lp->a;"),
 ("no-member", "li = lst.nosuch_$N;", "li = lst.a;"),
 ("no-member", "lp->next->nosuch_$N = 1;", "lp->next->a = 1;"),
 ("no-member", "li = lun.a;", "li = lun.i;"),
 ("not-struct", "li = li.a;", "li = lst.a;"),
 ("not-struct", "li = lp.a;", "li = lp->a;"),
 ("not-struct", "li = lst->a;", "li = lst.a;"),
 ("not-struct", "li = pi->a;", "li = lp->a;"),
 ("not-struct", "li = la.a;", "li = la[0];"),
 ("not-struct", "f1.a = 1;", "lst.a = 1;"),
  # pointers
 ("deref", "li = &*li == pi;", "li = &*pi == pi;"),
 ("deref", "li = &*la == pi;", "li = &*pi == pi;"),
 ("addr", "li = *&3;", "li = *&li;"),
 ("addr", "li = *&(li + 1);", "li = *&(li);"),
 ("addr", "li = *&f1(1);", "li = *&lst.a;"),
 ("addr", "li = (*&f1(1)) + 1;", "li = (*&la[1]) + 1;"),
 # calls
 ("arg-count", "li = f0($C);", "li = f0();"),
 ("arg-count", "li = f1();", "li = f1($C);"),
 ("arg-count", "li = f1($C, $C);", "li = f1($C);"),
 ("arg-count", "li = f2($C);", "li = f2($C, 1.5);"),
 ("arg-count", "li = f2($C, 1.5, $C);", "li = f2($C, 1.5);"),
 ("arg-count", "li = fva();", "li = fva($C);"),
 ("arg-count", "fv();", "fv($C);"),
 ("arg-count", "li = (*pf)();", "li = (*pf)($C);"),
 ("arg-count", "li = (*pf)($C, $C);", "li = (*pf)($C);"),
 ("arg-count", "ld = pow_(ld);", "ld = pow_(ld, ld);"),
 ("arg-count", "ls = strchr(ls);", "ls = strchr(ls, 65);"),
 ("arg-count", "ls = strchr(ls, 65, 1);", "ls = strchr(ls, 65);"),
 ("arg-type", "li = f1(ls);", "li = f1(li);"),
 ("arg-type", "li = f1(ld);", "li = f1((int)ld);"),
 ("arg-type", "li = f1(ll);", "li = f1((int)ll);"),
 ("arg-type", "li = f1(lst);", "li = f1(lst.a);"),
 ("arg-type", "li = f1(la);", "li = f1(la[1]);"),
 ("arg-type", "li = f1(pf);", "li = f1((*pf)(1));"),
 ("arg-type", "li = f2(li, ls);", "li = f2(li, ld);"),
 ("arg-type", "li = f2(pi, ld);", "li = f2(*pi, ld);"),
 ("arg-type", "ls = fs(li);", "ls = fs(ls);"),
 ("arg-type", "ls = fs(pi);", "ls = fs((char *)pi);"),
 ("arg-type", "ls = fs(pb);", "ls = fs((char *)pb);"),
 ("arg-type", "ls = fs(ld);", "ls = fs(ls);"),
 ("arg-type", "ls = fs(lp);", "ls = fs((char *)lp);"),
 ("arg-type", "lp = fp(ls);", "lp = fp(lp);"),
 ("arg-type", "lp = fp(&lun);", "lp = fp(&lst);"),
 ("arg-type", "lp = fp(lst);", "lp = fp(&lst);"),
 ("arg-type", "li = (*pf)(ls);", "li = (*pf)(li);"),
 ("arg-type", "li = (int)strlen(li);", "li = (int)strlen(ls);"),
 ("arg-type", "ls = strchr(li, ls);", "ls = strchr(ls, li);"),
 ("call-nonfunc", "li = li(1);", "li = f1(1);"),
 ("call-nonfunc", "li = ls(1);", "li = f1(1);"),
 ("call-nonfunc", "li = la(1);", "li = la[1];"),
 ("call-nonfunc", "li = (*pi)(1);", "li = (*pf)(1);"),
 # assignments, initializers and returns
 ("assign-type", "li = ls;", "li = gi;"),
 ("assign-type", "li = pi;", "li = *pi;"),
 ("assign-type", "li = lst;", "li = lst.a;"),
 ("assign-type", "li = &li;", "pi = &li;"),
 ("assign-type", "ls = li;", "ls = gs;"),
 ("assign-type", "ls = 5;", "ls = NULL;"),
 ("assign-type", "ls = ld;", "ls = gs;"),
 ("assign-type", "ls = pi;", "ls = (char *)pi;"),
 ("assign-type", "ls = &ls;", "ps = &ls;"),
 ("assign-type", "ps = ls;", "*ps = ls;"),
 ("assign-type", "pi = pb;", "pi = (int *)pb;"),
 ("assign-type", "lp = pi;", "lp = (struct st *)pi;"),
 ("assign-type", "lp = &lun;", "lp = &lst;"),
 ("assign-type", "lp = lst;", "lp = &lst;"),
 ("assign-type", "lst = lp;", "lst = *lp;"),
 ("assign-type", "lst = li;", "lst = gst;"),
 ("assign-type", "lst = lun;", "lst = gst;"),
 ("assign-type", "lst.a = ls;", "lst.s = ls;"),
 ("assign-type", "lst.s = li;", "lst.a = li;"),
 ("assign-type", "lp->next = pi;", "lp->next = lp;"),
 ("assign-type", "la[0] = ls;", "la[0] = li;"),
 ("assign-type", "pf = &f0;", "pf = &f1;"),
 ("assign-type", "pf = &f2;", "pf = &f1;"),
 ("assign-type", "pf = &fs;", "pf = &f1;"),
 ("assign-type", "pf = pi;", "pf = &f1;"),
 ("assign-type", "la = lst.arr;", "la[0] = la[1];"),
 ("lossy", "li = ld;", "li = (int)ld;"),
 ("lossy", "li = ll;", "li = (int)ll;"),
 ("lossy", "li = lf;", "li = (int)lf;"),
 ("lossy", "lu = ld;", "lu = (unsigned)ld;"),
 ("lossy", "lu = ll;", "lu = (unsigned)ll;"),
 ("lossy", "ll = ld;", "ll = (long long)ld;"),
 ("lossy", "ll = lf;", "ll = (long long)lf;"),
 ("lossy", "lf = ld;", "lf = (float)ld;"),
 ("lossy", "lst.a = ld;", "lst.a = (int)ld;"),
 ("lossy", "*pi = ll;", "*pi = (int)ll;"),
 ("lossy", "la[1] = lf;", "la[1] = (int)lf;"),
 ("lossy", "gi = gd;", "gi = (int)gd;"),
 ("lossy", "*pb = ll;", "*pb = (unsigned char)ll;"),
 ("lossy", "*pb = lf;", "*pb = (unsigned char)lf;"),
 ("lossy", "li += ld;", "li += (int)ld;"),
 ("lossy", "li *= ll;", "li *= (int)ll;"),
 ("lossy", "lf -= ld;", "lf -= (float)ld;"),
 ("lossy", "int q_$N = ld; li = q_$N;", "int q_$N = (int)ld; li = q_$N;"),
 ("lossy", "float q_$N = ld; lf = q_$N;", "float q_$N = (float)ld; lf = q_$N;"),
 ("init-type", "int q_$N = ls; li = q_$N;", "int q_$N = gi; li = q_$N;"),
 ("init-type", "int *q_$N = ls; li = *q_$N;", "int *q_$N = pi; li = *q_$N;"),
 ("init-type", "char *q_$N = 7; ls = q_$N;", "char *q_$N = ls; ls = q_$N;"),
 ("init-type", "int *q_$N = li; pi = q_$N;", "int *q_$N = &li; pi = q_$N;"),
 ("init-type", "struct st *q_$N = &lun; lp = q_$N;", "struct st *q_$N = &lst; lp = q_$N;"),
 ("void-value", "li = fv(1);", "li = f1(1);"),
 ("void-value", "li = 1 + fv(1);", "li = 1 + f1(1);"),
 ("void-value", "if (fv(1)) li = 1;", "if (f1(1)) li = 1;"),
 ("void-value", "li = f1(fv(1));", "li = f1(f1(1));"),
 ("void-value", "li = (int)fv(1);", "li = (int)f1(1);"),
 ("void-value", "li = fv(1) ? 1 : 2;", "li = f1(1) ? 1 : 2;"),
 ("void-value", "li = !fv(1);", "li = !f1(1);"),
 ("void-value", "li = li && fv(1);", "li = li && f1(1);"),
 ("void-value", "void *q_$N = fv(1); pv = q_$N;", "void *q_$N = ls; pv = q_$N;"),
 ("void-value", "while (fv(li)) li--;", "while (f0()) li--;"),
 ("void-value", "switch (fv(1)) { case 1: { li = 1; } break; }", "switch (f1(1)) { case 1: { li = 1; } break; }"),
 ("void-value", "li = la[fv(1)];", "li = la[f0() & 3];"),
 ("void-deref", "li = *pv;", "li = *(int *)pv;"),
 ("void-deref", "*pv;", "*pi;"),
 ("void-deref", "li = pv[0];", "li = pi[0];"),
 ("void-deref", "pv[1] = 3;", "pi[0] = 3;"),
 ("void-object", "void q_$N;", "void *q_$N;"),
 ("void-object", "void q_$N[3];", "void *q_$N[3];"),
 ("void-object", "li = (int)sizeof(void);", "li = (int)sizeof(void *);"),
 # lvalues
 ("lvalue", "$C = li;", "li = $C;"),
 ("lvalue", "li + 1 = 2;", "li = 1 + 2;"),
 ("lvalue", "-li = 2;", "li = -2;"),
 ("lvalue", "!li = 2;", "li = !2;"),
 ("lvalue", "f1(1) = 2;", "f1(1) == 2;"),
 ("lvalue", "li++ = 2;", "li = 2;"),
 ("lvalue", "--li = 2;", "--li;"),
 ("lvalue", "(li, gi) = 3;", "gi = 3;"),
 ("lvalue", "(li ? li : gi) = 3;", "li = li ? li : gi;"),
 ("lvalue", "(li = 1) = 3;", "li = gi = 3;"),
 ("lvalue", "(li += 1) -= 3;", "li += 1;"),
 ("lvalue", "li * 2 += 3;", "li += 3;"),
 ("lvalue", "f1 = 0;", "pf = NULL;"),
 ("lvalue", "E1 = 3;", "li = E1;"),
 ("lvalue", "5++;", "li++;"),
 ("lvalue", "--(li + 1);", "--li;"),
 ("lvalue", "f1(1)++;", "la[f0() & 3]++;"),
 ("lvalue", "pi = &1;", "pi = &la[1];"),
 ("lvalue", "pi = &(li + 1);", "pi = &li;"),
 ("lvalue", "pi = &f1(1);", "pi = &la[1];"),
 ("lvalue", "pi = &E1;", "pi = &la[E1];"),
 ("lvalue", "sizeof(li) = 3;", "li = (int)sizeof(li);"),
 ("lvalue", "la++;", "la[0]++;"),
 ("register-address", "register int q_$N = 1; pi = &q_$N;", "int q_$N = 1; pi = &q_$N;"),
 # operators
 ("operand", "li = ld % 2;", "li = li % 2;"),
 ("operand", "li = li % ld;", "li = li % (int)3.0;"),
 ("operand", "li = ~ld;", "li = ~li;"),
 ("operand", "ld = ld << 1;", "li = li << 1;"),
 ("operand", "li = li >> ld;", "li = li >> 1;"),
 ("operand", "li = ld & 1;", "li = li & 1;"),
 ("operand", "li = lf | 1;", "li = li | 1;"),
 ("operand", "li ^= ld;", "li ^= 3;"),
 ("operand", "ld %= 3;", "li %= 3;"),
 ("operand", "ld <<= 3;", "li <<= 3;"),
 ("operand", "li = -ls;", "li = -gi;"),
 ("operand", "ls = ls * 2;", "ls = ls + 2;"),
 ("operand", "ls = ls / 2;", "li = li / 2;"),
 ("operand", "ls = ls % 2;", "li = li % 2;"),
 ("operand", "ls = ls + pi;", "ls = ls + li;"),
 ("operand", "ls = ls + gs;", "ls = ls + 1;"),
 ("operand", "ls = ls + ld;", "ls = ls + (int)ld;"),
 ("operand", "ls = 3 - ls;", "ls = ls - 3;"),
 ("operand", "li = (int)(pi - pb);", "li = (int)(pb - pb);"),
 ("operand", "ls += 1.5;", "ls += 1;"),
 ("operand", "ls *= 2;", "li *= 2;"),
 ("operand", "li = ls & 1;", "li = *ls & 1;"),
 ("operand", "li = ls << 1;", "li = *ls << 1;"),
 ("operand", "li = ~ls;", "li = ~*ls;"),
 ("operand", "li = !lst;", "li = !lst.a;"),
 ("operand", "li = lst + 1;", "li = lst.a + 1;"),
 ("operand", "li = -lst;", "li = -lst.a;"),
 ("operand", "li = lst == gst;", "li = lst.a == gst.a;"),
 ("operand", "li = lst < gst;", "li = lst.a < gst.a;"),
 ("operand", "if (lst) li = 1;", "if (lst.a) li = 1;"),
 ("operand", "while (lst) li--;", "while (lst.a) lst.a--;"),
 ("operand", "li = lst ? 1 : 2;", "li = lst.a ? 1 : 2;"),
 ("operand", "li = lst && 1;", "li = lst.a && 1;"),
 ("operand", "li = 1 || gst;", "li = 1 || gst.a;"),
 ("operand", "li = li ? lst : 3;", "li = li ? lst.a : 3;"),
 ("operand", "li = *li;", "li = *pi;"),
 ("operand", "ld = *ld;", "ld = *&ld;"),
 ("operand", "li = *lst;", "lst = *lp;"),
 ("operand", "li = li[0];", "li = pi[0];"),
 ("operand", "li = lst[0];", "li = lst.arr[0];"),
 ("operand", "li = pi[ld];", "li = pi[(int)ld];"),
 ("operand", "li = la[ls];", "li = la[1];"),
 ("operand", "li = la[lst];", "li = la[lst.a];"),
 ("operand", "lst++;", "lst.a++;"),
 ("operand", "--lun;", "--lun.i;"),
 ("operand", "lst += 1;", "lst.a += 1;"),
 ("operand", "li = li == ls;", "li = ls == NULL;"),
 ("operand", "li = ls < 3;", "li = ls < gs;"),
 ("operand", "li = ld == ls;", "li = ld == li;"),
 ("cast", "lst = (struct st)li;", "li = (int)li;"),
 ("cast", "li = (int)lst;", "li = (int)lst.a;"),
 ("cast", "lp = (struct st *)lst;", "lp = (struct st *)&lst;"),
 ("cast", "pi = (int *)ld;", "pi = (int *)pb;"),
 ("cast", "pi = (int *)lf;", "pi = (int *)lu;"),
 # control flow
 ("goto", "goto nosuch_$N;", "{ goto lab_$N; lab_$N:; }"),
 ("case", "switch (li) { case 1: { gi = 1; } break; case 1: { gi = 2; } break; }",
          "switch (li) { case 1: { gi = 1; } break; case 2: { gi = 2; } break; }"),
 ("case", "switch (li) { case $C: { gi = 1; } break; case 3: case $C: { gi = 2; } break; }",
          "switch (li) { case 1: { gi = 1; } break; case 3: case 4: { gi = 2; } break; }"),
 ("case", "switch (li) { default: { gi = 1; } break; default: { gi = 2; } break; }",
          "switch (li) { case 9: { gi = 1; } break; default: { gi = 2; } break; }"),
 ("case", "switch (li) { case gi: { gi = 1; } break; }", "switch (li) { case E1: { gi = 1; } break; }"),
 ("case", "switch (li) { case 1.5: { gi = 1; } break; }", "switch (li) { case 1+5: { gi = 1; } break; }"),
 ("case", "switch (li) { case 4294967296LL: { gi = 1; } break; }", "switch (li) { case 2147483647: { gi = 1; } break; }"),
 ("case", "switch (li) { case ls: { gi = 1; } break; }", "switch (li) { case 'a': { gi = 1; } break; }"),
 ("case", "switch (ld) { case 1: { gi = 1; } break; }", "switch ((int)ld) { case 1: { gi = 1; } break; }"),
 ("case", "switch (ls) { case 1: { gi = 1; } break; }", "switch (*ls) { case 1: { gi = 1; } break; }"),
 ("case", "switch (lst) { case 1: { gi = 1; } break; }", "switch (lst.a) { case 1: { gi = 1; } break; }"),
 ("case", "switch (li) { gi = 1; }", "switch (li) { case 0: { gi = 1; } }"),
 ("case", "case 1: { li = 1; }", "{ li = 1; }"),
 ("case", "default: { li = 1; }", "{ li = 1; }"),
 ("label", "{ lab_$N:; li = 1; lab_$N:; }", "{ lab_$N:; li = 1; lac_$N:; }"),
 # declarations
 ("redeclared", "int q_$N; double q_$N;", "int q_$N; double r_$N;"),
 ("redeclared", "int q_$N = 1; li = q_$N; int q_$N = 2; li = q_$N;", "int q_$N = 1; li = q_$N; q_$N = 2; li = q_$N;"),
 ("redeclared", "int q_$N, *q_$N;", "int q_$N, *r_$N;"),
 ("array-size", "int q_$N[0];", "int q_$N[1];"),
 ("array-size", "int q_$N[-$P];", "int q_$N[$P];"),
 ("array-size", "int q_$N[1.5];", "int q_$N[15];"),
 ("array-size", "int q_$N[gi];", "int q_$N[E2];"),
 ("array-size", "int q_$N[li + 1];", "int q_$N[E1 + 1];"),
 ("array-size", "int q_$N[];", "int q_$N[3];"),
 ("array-size", "int q_$N[\"abc\"];", "int q_$N['a'];"),
 ("array-size", "int q_$N[1073741824];", "int q_$N[1024];"),
 ("specifiers", "int float q_$N;", "float q_$N;"),
 ("specifiers", "int int q_$N;", "int q_$N;"),
 ("specifiers", "int long int q_$N;", "long int q_$N;"),
 ("specifiers", "int unsigned int q_$N;", "int unsigned q_$N;"),
 ("specifiers", "short short q_$N;", "short int q_$N;"),
 ("specifiers", "char char q_$N;", "char q_$N;"),
 ("specifiers", "unsigned unsigned q_$N;", "unsigned int q_$N;"),
 ("specifiers", "double double q_$N;", "double q_$N;"),
 ("specifiers", "bool int q_$N;", "bool q_$N;"),
 ("specifiers", "unsigned double q_$N;", "double q_$N;"),
 ("specifiers", "short long q_$N;", "long long q_$N;"),
 ("specifiers", "short char q_$N;", "short int q_$N;"),
 ("specifiers", "signed unsigned q_$N;", "signed int q_$N;"),
 ("specifiers", "long long long q_$N;", "long long q_$N;"),
 ("specifiers", "unsigned struct st q_$N;", "struct st q_$N;"),
 ("specifiers", "char int q_$N;", "char q_$N;"),
 ("specifiers", "void int q_$N;", "int q_$N;"),
 ("specifiers", "unsigned void *q_$N;", "void *q_$N;"),
 ("specifiers", "li = (int)sizeof(unsigned float);", "li = (int)sizeof(unsigned long);"),
 ("specifiers", "ld = (long float)ld;", "ld = (float)ld;"),
 # syntax
 ("syntax", "li = 1", "li = 1;"),
 ("syntax", "li = 1 2;", "li = 1 + 2;"),
 ("syntax", "li = gi gi;", "li = gi * gi;"),
 ("syntax", "li = (1 + 2;", "li = (1 + 2);"),
 ("syntax", "li = 1 + 2);", "li = 1 + 2;"),
 ("syntax", "li = 1 + ;", "li = 1 + 1;"),
 ("syntax", "li = * ;", "li = *pi;"),
 ("syntax", "li = / 3;", "li = gi / 3;"),
 ("syntax", "li = ;", "li = 0;"),
 ("syntax", "= 3;", "li = 3;"),
 ("syntax", "li == = 3;", "li = 3;"),
 ("syntax", "if li { gi = 1; }", "if (li) { gi = 1; }"),
 ("syntax", "if () gi = 1;", "if (li) gi = 1;"),
 ("syntax", "if (li gi = 1;", "if (li) gi = 1;"),
 ("syntax", "else gi = 1;", "if (li) gi = 2; else gi = 1;"),
 ("syntax", "if (li) gi = 1; else gi = 2; else gi = 3;", "if (li) gi = 1; else gi = 2;"),
 ("syntax", "while () li--;", "while (li) li--;"),
 ("syntax", "while (li li--;", "while (li) li--;"),
 ("syntax", "do li--; while (li > 0)", "do li--; while (li > 0);"),
 ("syntax", "do li--; until (li > 0);", "do li--; while (li > 0);"),
 ("syntax", "do { li--; }", "do { li--; } while (li > 0);"),
 ("syntax", "for (li = 0; li < 3) gi++;", "for (li = 0; li < 3;) li++;"),
 ("syntax", "for (li = 0; li < 3; ++li; ++gi) ;", "for (li = 0; li < 3; ++li, ++gi) ;"),
 ("syntax", "for li = 0; li < 3; ++li { gi++; }", "for (li = 0; li < 3; ++li) { gi++; }"),
 ("syntax", "switch li { case 1: { gi = 1; } }", "switch (li) { case 1: { gi = 1; } }"),
 ("syntax", "switch (li) { case 1 { gi = 1; } }", "switch (li) { case 1: { gi = 1; } }"),
 ("syntax", "switch (li) { case : { gi = 1; } }", "switch (li) { case 1: { gi = 1; } }"),
 ("syntax", "goto;", "{ goto lab_$N; lab_$N:; }"),
 ("syntax", "f1(1,);", "f1(1);"),
 ("syntax", "f1(,1);", "f1(1);"),
 ("syntax", "f2(1 1.5);", "f2(1, 1.5);"),
 ("syntax", "f1(1;", "f1(1);"),
 ("syntax", "li = la[1;", "li = la[1];"),
 ("syntax", "li = la[];", "li = la[0];"),
 ("syntax", "li = la[1, ];", "li = la[1];"),
 ("syntax", "li = lst.;", "li = lst.a;"),
 ("syntax", "li = lp->;", "li = lp->a;"),
 ("syntax", "li = lst.3;", "li = lst.a;"),
 ("syntax", "li = gi ? 1;", "li = gi ? 1 : 2;"),
 ("syntax", "li = gi ? : 1;", "li = gi ? 2 : 1;"),
 ("syntax", "li = gi : 1;", "li = gi;"),
 ("syntax", "int q_$N = ;", "int q_$N = 1;"),
 ("syntax", "int q_$N 3;", "int q_$N = 3;"),
 ("syntax", "int 3q_$N;", "int q3_$N;"),
 ("syntax", "int q_$N,;", "int q_$N;"),
 ("syntax", "int *;", "int *q_$N;"),
 ("syntax", "int q_$N[3;", "int q_$N[3];"),
 ("syntax", "int q_$N)3(;", "int q_$N[3];"),
 ("syntax", "int q_$N[3] = {1, 2, 3;", "int q_$N[3] = {1, 2, 3};"),
 ("syntax", "int q_$N[3] = {1 2, 3};", "int q_$N[3] = {1, 2, 3};"),
 ("syntax", "li = sizeof;", "li = (int)sizeof(int);"),
 ("syntax", "li = (int;", "li = (int)gi;"),
 ("syntax", "li = (int)gi);", "li = (int)(gi);"),
 ("syntax", "struct { int a q_$N;", "struct { int a; } q_$N;"),
 ("syntax", "int if = 3;", "int if_ = 3;"),
 ("syntax", "int f_$N(int x) { return x; }", "int f_$N;"),
 ("syntax", "li = gi +* 3;", "li = gi + *pi;"),
 ("token", "li = 3 @ 4;", "li = 3 ^ 4;"),
 ("token", "li = `3`;", "li = (3);"),
 ("token", "li = $$3;", "li = +3;"),
 ("token", "li = \\ 3;", "li = 3;"),
 ("token", "li = '';", "li = ' ';"),
 ("token", "li = 'ab';", "li = 'a';"),
 ("token", "li = 'a;", "li = 'a';"),
 ("token", "ls = \"abc;", "ls = \"abc\";"),
 ("token", "li = '\\q';", "li = '\\n';"),
 ("token", "ls = \"a\\qb\";", "ls = \"a\\nb\";"),
 ("token", "li = '\\x';", "li = '\\x1';"),
 ("token", "ls = \"\\x\";", "ls = \"\\x1\";"),
 ("token", "ls = \"ab\\x123\";", "ls = \"ab\\x12\";"),
 ("token", "ls = \"ab\\x123 d\";", "ls = \"ab\\x12 d\";"),
 ("token", "ls = \"ab\" \"\\x100\";", "ls = \"ab\" \"\\x10\";"),
 ("token", "li = '\\x100';", "li = '\\x10';"),
 ("token", "li = (int)sizeof(L\"a\\x110000\");", "li = (int)sizeof(L\"a\\x10ffff\");"),
 ("token", "li = (int)sizeof(L\"\\x110000z\");", "li = (int)sizeof(L\"\\x10ffffz\");"),
 ("token", "li = (int)L'\\x110000';", "li = (int)L'\\x10ffff';"),
 ("token", "li = 08;", "li = 07;"),
 ("token", "li = 019;", "li = 017;"),
 ("token", "li = 0x;", "li = 0x1;"),
 ("token", "li = 0xg;", "li = 0xf;"),
 ("token", "li = 12abc;", "li = 12;"),
 ("token", "ld = 1e;", "ld = 1e1;"),
 ("token", "ld = 1e+;", "ld = 1e+1;"),
 ("token", "ld = 0x1.8;", "ld = 0x1.8p0;"),
 ("token", "ld = 1.5.2;", "ld = 1.52;"),
 ("token", "ld = 1.5x;", "ld = 1.5;"),
 ("token", "li = 2147483648;", "li = 2147483647;"),
 ("token", "li = 99999999999999999999;", "li = 999999999;"),
 ("token", "ll = 9223372036854775808LL;", "ll = 9223372036854775807LL;"),
 ("token", "lu = 4294967296U;", "lu = 4294967295U;"),
 ("token", "ll = (long long)18446744073709551616ULL;", "ll = (long long)18446744073709551615ULL;"),
 ("macro", "li = MAC2(1);", "li = MAC2(1, 2);"),
 ("macro", "li = MAC2(1, 2, 3);", "li = MAC2(1, 2);"),
 ("macro", "li = MAC2;", "li = MAC0;"),
 ("macro", "li = MAC2(1, 2;", "li = MAC2(1, 2);"),
 ("static-assert", "static_assert(sizeof(int) == 8);", "static_assert(sizeof(int) == 4);"),
 ("static-assert", "static_assert(E1 > E2);", "static_assert(E1 < E2);"),
 ("generic", "li = generic(ls, int: 1, double: 2);", "li = generic(ls, int: 1, default: 2);"),
 ("vararg", "int q_$N = va_arg(ap, int); li = q_$N;", "int q_$N = li; li = q_$N;"),
 ("offsetof", "li = (int)offsetof(struct st, nosuch);", "li = (int)offsetof(struct st, d);"),
 ("offsetof", "li = (int)offsetof(int, a);", "li = (int)offsetof(struct st, a);"),
]

# return statements for functions of the given result type
RET = {
 "int": [("syntax", "return 1 2;", "return 1;"), ("return-type", "return;", "return 0;"), ("return-type", "return ls;", "return *ls;"),
         ("return-type", "return ld;", "return (int)ld;"), ("return-type", "return ll;", "return (int)ll;"),
         ("return-type", "return lst;", "return lst.a;"), ("return-type", "return pi;", "return *pi;"),
         ("return-type", "return fv(1);", "return f1(1);")],
 "void": [("return-type", "return 1;", "return;"), ("return-type", "return ls;", "return;")],
 "char *": [("return-type", "return 1;", "return NULL;"), ("return-type", "return pi;", "return ls;"),
            ("return-type", "return;", "return ls;"), ("return-type", "return ld;", "return ls;")],
 "double": [("return-type", "return ls;", "return ld;"), ("return-type", "return;", "return lf;"),
            ("return-type", "return lst;", "return lst.d;")],
 "struct st *": [("return-type", "return pi;", "return lp;"), ("return-type", "return lst;", "return lp;"),
            ("return-type", "return &lun;", "return NULL;")],
}

# statements for the outermost block of a function only (no loop or switch around)
FLAT = [
 ("break", "break;", "while (li) { break; }"),
 ("break", "if (li) break;", "for (;;) { if (li) break; }"),
 ("break", "{ { break; } }", "do { break; } while (li);"),
 ("continue", "continue;", "while (li--) { continue; }"),
 ("continue", "if (li) { continue; }", "for (li = 0; li < 3; ++li) { if (li) continue; }"),
 ("continue", "switch (li) { case 1: { continue; } }", "switch (li) { case 1: { li = 1; } }"),
]

# declarations and definitions at the top level
TOP = [
 ("redefined", "int v_$N; int v_$N;", "int v_$N; int w_$N;"),
 ("redefined", "int v_$N = 1; int v_$N = 2;", "int v_$N = 1; int w_$N = 2;"),
 ("redefined", "int v_$N; double v_$N;", "int v_$N; double w_$N;"),
 ("redefined", "int v_$N; int v_$N(void) { return 1; }", "int v_$N; int w_$N(void) { return 1; }"),
 ("redefined", "int v_$N(void) { return 1; } int v_$N(void) { return 2; }", "int v_$N(void) { return 1; } int w_$N(void) { return 2; }"),
 ("redefined", "struct s_$N { int a; }; struct s_$N { int b; };", "struct s_$N { int a; }; struct t_$N { int b; };"),
 ("redefined", "union s_$N { int a; }; union s_$N { int b; };", "union s_$N { int a; }; union t_$N { int b; };"),
 ("redefined", "enum { e_$N, e_$N };", "enum { e_$N, h_$N };"),
 ("redefined", "enum { e_$N }; enum { e_$N };", "enum { e_$N }; enum { h_$N };"),
 ("redefined", "typedef int t_$N; typedef long t_$N;", "typedef int t_$N; typedef long r_$N;"),
 ("redefined", "typedef int t_$N; int t_$N;", "typedef int t_$N; t_$N r_$N;"),
 ("redefined", "int v_$N; enum { v_$N };", "int v_$N; enum { w_$N };"),
 ("conflict", "int v_$N(int x); long long v_$N(int x) { return x; }", "int v_$N(int x); int v_$N(int x) { return x; }"),
 ("conflict", "int v_$N(int x); int v_$N(double x) { return 1; }", "int v_$N(int x); int v_$N(int x) { return 1; }"),
 ("conflict", "int v_$N(int x); int v_$N(void) { return 1; }", "int v_$N(int x); int v_$N(int y) { return 1; }"),
 ("conflict", "int v_$N(void); int v_$N;", "int v_$N(void); int w_$N;"),
 ("conflict", "int v_$N(char *x); int v_$N(int *x) { return 1; }", "int v_$N(int *x); int v_$N(int *x) { return 1; }"),
 ("params", "int v_$N(int x, int x) { return x; }", "int v_$N(int x, int y) { return x; }"),
 ("params", "int v_$N(int x, double y, char *x) { return 1; }", "int v_$N(int x, double y, char *z) { return 1; }"),
 ("params", "int v_$N(void x) { return 1; }", "int v_$N(void *x) { return 1; }"),
 ("params", "int v_$N(int x, void) { return 1; }", "int v_$N(void) { return 1; }"),
 ("params", "int v_$N(int x,) { return 1; }", "int v_$N(int x) { return 1; }"),
 ("params", "int v_$N(int x int y) { return 1; }", "int v_$N(int x, int y) { return 1; }"),
 ("params", "int v_$N(int x { return 1; }", "int v_$N(int x) { return 1; }"),
 ("params", "int v_$N(..., int x) { return 1; }", "int v_$N(int x, ...) { return 1; }"),
 ("params", "int v_$N(nosuch_t x) { return 1; }", "int v_$N(size_t x) { return 1; }"),
 ("params", "int v_$N(struct nosuch_$N x) { return 1; }", "int v_$N(struct nosuch_$N *x) { return 1; }"),
 ("result", "int v_$N(void) { }", "void v_$N(void) { }"),
 ("result", "int v_$N(int x) { if (x) return 1; }", "int v_$N(int x) { if (x) return 1; return 2; }"),
 ("result", "nosuch_t v_$N(void) { return 1; }", "size_t v_$N(void) { return 1; }"),
 ("members", "struct s_$N { int a; double a; };", "struct s_$N { int a; double b; };"),
 ("members", "struct s_$N { int a, a; };", "struct s_$N { int a, b; };"),
 ("members", "union s_$N { int a; float a; };", "union s_$N { int a; float b; };"),
 ("members", "struct s_$N { int a };", "struct s_$N { int a; };"),
 ("members", "struct s_$N { int a; struct s_$N b; }; struct s_$N v_$N;", "struct s_$N { int a; struct s_$N *b; }; struct s_$N v_$N;"),
 ("members", "struct s_$N { nosuch_t a; };", "struct s_$N { size_t a; };"),
 ("members", "struct s_$N { void a; }; struct s_$N v_$N;", "struct s_$N { void *a; }; struct s_$N v_$N;"),
 ("members", "struct s_$N { int a[0-1]; }; struct s_$N v_$N;", "struct s_$N { int a[1]; }; struct s_$N v_$N;"),
 ("incomplete-type", "struct s_$N; struct s_$N v_$N;", "struct s_$N; struct s_$N *v_$N;"),
 ("incomplete-type", "struct s_$N v_$N;", "struct s_$N *v_$N;"),
 ("void-object", "void v_$N;", "void *v_$N;"),
 ("array-size", "int v_$N[0];", "int v_$N[1];"),
 ("array-size", "int v_$N[-$P];", "int v_$N[$P];"),
 ("array-size", "int v_$N[gi];", "int v_$N[E2];"),
 ("array-size", "int v_$N[2.0];", "int v_$N[20];"),
 ("array-size", "double v_$N[536870912];", "double v_$N[512];"),
 ("array-size", "char v_$N[4294967297LL];", "char v_$N[97];"),
 ("initializer", "int v_$N = f0();", "int v_$N = 3;"),
 ("initializer", "int v_$N = gi;", "int v_$N = E1;"),
 ("initializer", "int v_$N = \"abc\";", "char *v_$N = \"abc\";"),
 ("initializer", "char *v_$N = 3.5;", "double v_$N = 3.5;"),
 ("initializer", "int v_$N[2] = {1, 2, 3};", "int v_$N[3] = {1, 2, 3};"),
 ("initializer", "char v_$N[3] = \"abcd\";", "char v_$N[5] = \"abcd\";"),
 ("initializer", "struct pt v_$N = {1, 2, 3};", "struct pt v_$N = {1, 2};"),
 ("initializer", "int v_$N[3] = {1, 2, \"x\"};", "int v_$N[3] = {1, 2, 'x'};"),
 ("initializer", "int v_$N[3] = {1, {2}, 3};", "int v_$N[3] = {1, 2, 3};"),
 ("initializer", "int v_$N[3] = {1, gi, 3};", "int v_$N[3] = {1, E1, 3};"),
 ("initializer", "int v_$N = {1, 2};", "int v_$N[2] = {1, 2};"),
 ("initializer", "int v_$N = 1 / 0;", "int v_$N = 1 / 1;"),
 ("initializer", "int v_$N[2] = 3;", "int v_$N[2] = {3, 4};"),
 ("initializer", "int v_$N[3] = {1 2, 3};", "int v_$N[3] = {1, 2, 3};"),
 ("initializer", "int v_$N[3] = {1, 2, 3;", "int v_$N[3] = {1, 2, 3};"),
 ("initializer", "int *v_$N = &nosuch_$N[0];", "int *v_$N = &garr[0];"),
 ("initializer", "double *v_$N = &garr[0];", "int *v_$N = &garr[0];"),
 ("initializer", "int *v_$N = \"abc\";", "char *v_$N = \"abc\";"),
 ("initializer", "int *v_$N[2] = {&garr[0], \"abc\"};", "char *v_$N[2] = {\"abc\", \"d\"};"),
 ("initializer", "int (*v_$N)(int) = &f0;", "int (*v_$N)(int) = &f1;"),
 ("initializer", "int (*v_$N)(int) = &fs;", "char *(*v_$N)(char *) = &fs;"),
 ("initializer", "struct pt *v_$N = &gst;", "struct st *v_$N = &gst;"),
 ("enumerator", "enum { e_$N = gi };", "enum { e_$N = 3 };"),
 ("enumerator", "enum { e_$N = 1.5 };", "enum { e_$N = 15 };"),
 ("enumerator", "enum { e_$N h_$N };", "enum { e_$N, h_$N };"),
 ("enumerator", "enum { e_$N = };", "enum { e_$N = 1 };"),
 ("syntax", "int v_$N", "int v_$N;"),
 ("syntax", "int v_$N = 3 4;", "int v_$N = 3 + 4;"),
 ("syntax", "int v_$N(void) { return 1; ", "int v_$N(void) { return 1; }"),
 ("syntax", "int v_$N(void) { return 1; } }", "int v_$N(void) { return 1; }"),
 ("syntax", "int v_$N(void) return 1;", "int v_$N(void) { return 1; }"),
 ("syntax", "gi = 3;", "int v_$N = 3;"),
 ("syntax", "f1(3);", "int v_$N(int);"),
 ("syntax", "if (1) { }", "int v_$N;"),
 ("syntax", "return 1;", "int v_$N;"),
 ("syntax", "v_$N;", "int v_$N;"),
 ("syntax", "v_$N(int x) { return x; }", "int v_$N(int x) { return x; }"),
 ("syntax", "int int_ v_$N;", "int v_$N;"),
 ("syntax", "struct { int a; }", "struct s_$N { int a; };"),
 ("syntax", "@", "int v_$N;"),
 ("specifiers", "int double v_$N;", "double v_$N;"),
 ("specifiers", "unsigned float v_$N;", "unsigned v_$N;"),
 ("specifiers", "short double v_$N(void) { return 1; }", "double v_$N(void) { return 1; }"),
 ("specifiers", "int v_$N(long short x) { return 1; }", "int v_$N(long int x) { return 1; }"),
 ("preprocessor", "\n#bogus\n", "\n#define D_$N 1\n"),
 ("preprocessor", "\n#endif\n", "\n#if 1\n#endif\n"),
 ("preprocessor", "\n#else\n", "\n#if 1\n#else\n#endif\n"),
 ("preprocessor", "\n#if 1\n", "\n#if 1\n#endif\n"),
 ("preprocessor", "\n#include <nosuch_$N.h>\n", "\n#include <ctype.h>\n"),
 ("preprocessor", "\n#include \"nosuch_$N.h\"\n", "\n#include <wchar.h>\n"),
 ("preprocessor", "\n#include\n", "\n#include <limits.h>\n"),
 ("preprocessor", "\n#include <ctype.h\n", "\n#include <ctype.h>\n"),
 ("preprocessor", "\n#define\n", "\n#define D_$N 1\n"),
 ("preprocessor", "\n#define D_$N(x) (x\nint v_$N = D_$N(1);\n", "\n#define D_$N(x) (x)\nint v_$N = D_$N(1);\n"),
 ("preprocessor", "\n#define D_$N(x (x)\n", "\n#define D_$N(x) (x)\n"),
 ("comment", "/* never closed", "/* closed */"),
 ("static-assert", "static_assert(1 > 2);", "static_assert(1 < 2);"),
]

# declarations in a header
HDR = [
 ("definition", "int x_$N;", "extern int x_$N;"),
 ("definition", "extern int f_$N(int x) { return x; }", "extern int f_$N(int x);"),
 ("syntax", "extern int x_$N", "extern int x_$N;"),
 ("syntax", "extern int 3x_$N;", "extern int x3_$N;"),
 ("syntax", "extern int f_$N(int x;", "extern int f_$N(int x);"),
 ("syntax", "struct s_$N { int a };", "struct s_$N { int a; };"),
 ("syntax", "@", "extern int x_$N;"),
 ("type", "extern nosuch_t x_$N;", "extern int *x_$N;"),
 ("type", "extern int f_$N(nosuch_t x);", "extern int f_$N(double x);"),
 ("type", "typedef nosuch_t t_$N;", "typedef int t_$N;"),
 ("type", "typedef int float t_$N;", "typedef float t_$N;"),
 ("type", "typedef int t_$N; extern t_$N t_$N x_$N;", "typedef int t_$N; extern t_$N x_$N;"),
 ("type", "typedef int t_$N; extern t_$N int x_$N;", "typedef int t_$N; extern t_$N x_$N;"),
 ("type", "typedef int t_$N; typedef long s_$N; extern s_$N t_$N v_$N;", "typedef int t_$N; typedef long s_$N; extern s_$N v_$N;"),
 ("type", "typedef int t_$N; struct s_$N { t_$N t_$N *a; };", "typedef int t_$N; struct s_$N { t_$N *a; };"),
 ("duplicate", "struct s_$N { int a; int a; };", "struct s_$N { int a; int b; };"),
 ("duplicate", "enum { e_$N, e_$N };", "enum { e_$N, f_$N };"),
 ("directive", "#bogus", "#define b_$N 1"),
 ("directive", "#endif", "#if 1\n#endif"),
 ("directive", "#include <nosuch_$N.h>", "#define c_$N 2"),
]

# violations whose diagnostic does not point to their line
LOOSE = {
 "#endif",
 "li = pv[0];", "pv[1] = 3;", "int q_$N[];", "do { li--; }", "int v_$N(void) { }", "int v_$N(void) { return 1; ", "struct { int a; }", "\n#include\n", "\n#include <ctype.h\n",
 "\n#define\n", "\n#define D_$N(x) (x\nint v_$N = D_$N(1);\n", "\n#if 1\n", "/* never closed", "int v_$N", "li = ls[", 
}
