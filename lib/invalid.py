"""Catalogue of C constraint violations, each with a valid twin differing only in the fault.
kind: 'stmt' (goes into a function body), 'file' (file scope).  `@` is a fresh prefix.
A statement entry can bring file-scope support declarations (third field), valid in both."""

ST = "struct @s { int a; int b; };\n"
UN = "union @u { int a; char c; };\n"
FN = "int @f(int a, int b) { return a + b; }\n"
VF = "void @v(int a) { return; }\n"
F0 = "int @z(void) { return 1; }\n"
FS = "int @k(struct @s *p) { return p->a; }\n"

STMT = [
    # name, bad, good, support
    ("two storage classes", "static extern int @x;", "static int @x;", ""),
    ("typedef and a storage class", "typedef static int @t; @t @x = 1;", "typedef int @t; @t @x = 1;", ""),
    ("storage class in a type name", "k = (static int) 1;", "k = (const int) 1;", ""),
    ("storage class in sizeof", "k = sizeof(register int);", "k = sizeof(int);", ""),
    ("static in a for statement", "for (static int @i = 0; @i < 2; @i++) k++;", "for (register int @i = 0; @i < 2; @i++) k++;", ""),
    ("typedef in a for statement", "for (typedef int @i; k < 0; ) k++;", "for (int @i; k < 0; ) k++;", ""),
    ("inline object", "inline int @x = 1; k = @x;", "auto int @x = 1; k = @x;", ""),
    ("inline object without a value", "inline int @x; @x = 1;", "int @x; @x = 1;", ""),
    ("unclosed character constant", "k = 'a;", "k = 'a';", ""),
    ("unclosed escape", "k = '\\n;", "k = '\\n';", ""),
    ("unclosed hexadecimal escape", "k = '\\x41;", "k = '\\x41';", ""),
    ("unclosed octal escape", "k = '\\12 ;", "k = '\\12' ;", ""),
    ("empty enumeration", "enum @e { };", "enum @e { @A };", ""),
    ("assignment to a cast", "(char) k = 3;", "k = (char) 3;", ""),
    ("cast incremented", "((long) k)++;", "((k))++;", ""),
    ("address of a cast", "int *@p = &(int) k;", "int *@p = &(k);", ""),
    ("assignment to an assignment", "(k = 2) = 3;", "k = (2) == 3;", ""),
    ("assignment to a compound assignment", "double @d = 1.5; (@d *= 2.0) = k;", "double @d = 1.5; @d *= (2.0) == k;", ""),
    ("address of an assignment", "int *@p = &(k = 2);", "int *@p = (k = 2, &k);", ""),
    ("assignment to a list of expressions", "int @x; (k, @x) = 2;", "int @x; (k, @x = 2);", ""),
    ("string literal assigned to", "\"abc\" = \"def\";", "char *@p = \"abc\"; @p = \"def\";", ""),
    ("string literal incremented", "\"abc\"++;", "char *@p = \"abc\"; @p++;", ""),
    ("variable case label", "int @x = 2; switch (k) { case @x: k = 1; }", "enum { @x = 2 }; switch (k) { case @x: k = 1; }", ""),
    ("case label with a call", "switch (k) { case 1 + @z(): k = 1; }", "switch (k) { case 1 + sizeof(@z()): k = 1; }", F0),
    ("case label with an assignment", "switch (k) { case k = 2: k = 1; }", "switch (k) { case 3 == 2: k = 1; }", ""),
    ("floating case label", "switch (k) { case 2.0: k = 1; }", "switch (k) { case (int) 2.0: k = 1; }", ""),
    ("floating array size", "int @a[2.0]; @a[1] = k;", "int @a[2]; @a[1] = k;", ""),
    ("pointer array size", "int *@p = 0; int @a[@p]; @a[0] = k;", "int *@p = 0; int @a[!@p]; @a[0] = k;", ""),
    ("array initialised by an array", "int @a[2] = {1, 2}; int @b[2] = @a; k = @b[0];", "int @a[2] = {1, 2}; int *@b = @a; k = @b[0];", ""),
    ("array initialised by a number", "int @a[1] = 5; k = @a[0];", "int @a[1] = {5}; k = @a[0];", ""),
    ("character array initialised by a pointer", "char *@p = \"ab\"; char @a[3] = @p; k = @a[0];", "char *@p = \"ab\"; char @a[3] = \"ab\"; k = @a[0] + *@p;", ""),
    ("difference of unrelated pointers", "char *@p = \"ab\"; int *@q = &k; long @d = @q - @p;", "char *@p = \"ab\"; char *@q = @p + 1; long @d = @q - @p;", ""),
    ("difference of rows and elements", "int @m[2][2]; @m[0][0] = 1; k = @m - @m[0];", "int @m[2][2]; @m[0][0] = 1; k = @m[1] - @m[0];", ""),
    ("undeclared variable read", "int @x = 1; @x = @y + 1;", "int @x = 1; int @y = 2; @x = @y + 1;", ""),
    ("undeclared variable written", "@x = 3;", "int @x; @x = 3;", ""),
    ("undeclared variable in condition", "if (@x) { k = 1; }", "int @x = 1; if (@x) { k = 1; }", ""),
    ("undeclared in dead code", "if (0) { k = @x; }", "int @x = 2; if (0) { k = @x; }", ""),
    ("undeclared function", "k = @g(1, 2);", "k = @f(1, 2);", FN),
    ("variable used before its declaration", "int @y = @x; int @x = 1;", "int @x = 1; int @y = @x;", ""),
    ("variable used after its block", "{ int @x = 1; } k = @x;", "{ int @x = 1; k = @x; }", ""),
    ("for variable used after the loop", "for (int @i = 0; @i < 2; @i++) ; k = @i;", "for (int @i = 0; @i < 2; @i++) k = @i;", ""),
    ("local of another function", "k = @q;", "k = @h();", "int @h(void) { int @q = 1; return @q; }\n"),
    ("parameter of another function", "k = @q;", "k = @h(1);", "int @h(int @q) { return @q; }\n"),
    ("struct tag out of scope", "{ struct @t { int a; }; } struct @t *@p; k = @p->a;", "struct @t { int a; }; struct @t *@p; @p = (struct @t *) 0; if (@p) k = @p->a;", ""),
    ("typedef out of scope", "{ typedef int @t; } @t @x = 1;", "typedef int @t; @t @x = 1;", ""),
    ("enumeration constant out of scope", "{ enum @e { @A }; } k = @A;", "enum @e { @A }; k = @A;", ""),
    ("unknown type name", "@t @x; @x = 1;", "int @x; @x = 1;", ""),
    ("unknown type in sizeof", "k = sizeof(@t);", "k = sizeof(int);", ""),
    ("unknown type in cast", "k = (@t) 1;", "k = (int) 1;", ""),
    ("typedef name used as a value", "typedef int @t; k = @t;", "typedef int @t; @t @x = 1; k = @x;", ""),
    ("redeclared variable", "int @x = 1; int @x = 2;", "int @x = 1; int @y = 2;", ""),
    ("redeclared with another type", "int @x = 1; char @x;", "int @x = 1; char @y;", ""),
    ("redeclared as extern", "int @x = 1; extern int @x;", "int @x = 1; extern int @g;", "int @g;\n"),
    ("extern with another type", "extern char @g;", "extern int @g;", "int @g;\n"),
    ("extern with an initialiser in a block", "extern int @g = 1;", "extern int @g; @g = 1;", "int @g;\n"),
    ("redeclared array", "int @x[2]; int @x[2];", "int @x[2]; int @y[2];", ""),
    ("redeclared enumeration constant", "enum @e { @A, @A };", "enum @e { @A, @B };", ""),
    ("redeclared member", "struct @t { int a; char a; }; k = 1;", "struct @t { int a; char b; }; k = 1;", ""),
    ("redeclared union member", "union @t { int a; char a; }; k = 1;", "union @t { int a; char b; }; k = 1;", ""),
    ("assignment to a constant", "3 = k;", "k = 3;", ""),
    ("assignment to a sum", "(k + 1) = 4;", "(k) = 4;", ""),
    ("assignment to a call", "@z() = 4;", "k = @z();", F0),
    ("compound assignment to a sum", "(k + 1) += 4;", "(k) += 4;", ""),
    ("increment of a constant", "3++;", "k++;", ""),
    ("increment of a sum", "(k + 1)++;", "(k)++;", ""),
    ("decrement of a product", "--(k * 2);", "--(k);", ""),
    ("increment of a call", "@z()++;", "@z();", F0),
    ("address of a constant", "int *@p = &3;", "int *@p = &k;", ""),
    ("address of a sum", "int *@p = &(k + 1);", "int *@p = &(k);", ""),
    ("address of a call", "int *@p = &@z();", "int @x = @z(); int *@p = &@x;", F0),
    ("assignment to an array", "int @a[2]; int @b[2]; @b[0] = 1; @a = @b;", "int @a[2]; int @b[2]; @b[0] = 1; @a[0] = @b[0];", ""),
    ("dereference of an integer", "k = *k;", "int *@p = &k; k = *@p;", ""),
    ("dereference of a float", "double @d = 1; k = *@d;", "double @d = 1; double *@p = &@d; k = *@p;", ""),
    ("dereference of a void pointer", "void *@p = &k; k = *@p;", "void *@p = &k; k = *((int *) @p);", ""),
    ("index of an integer", "k = k[0];", "int *@p = &k; k = @p[0];", ""),
    ("member of an integer", "k = k.a;", "struct @s @x; @x.a = 1; k = @x.a;", ST),
    ("arrow on an integer", "k = k->a;", "struct @s @x; @x.a = 1; struct @s *@p = &@x; k = @p->a;", ST),
    ("arrow on a structure", "struct @s @x; @x.a = 1; k = @x->a;", "struct @s @x; @x.a = 1; k = @x.a;", ST),
    ("dot on a pointer", "struct @s @x; @x.a = 1; struct @s *@p = &@x; k = @p.a;", "struct @s @x; @x.a = 1; struct @s *@p = &@x; k = @p->a;", ST),
    ("no such member", "struct @s @x; @x.a = 1; k = @x.c;", "struct @s @x; @x.a = 1; k = @x.a;", ST),
    ("no such member through a pointer", "struct @s @x; @x.a = 1; struct @s *@p = &@x; k = @p->c;", "struct @s @x; @x.a = 1; struct @s *@p = &@x; k = @p->a;", ST),
    ("no such union member", "union @u @x; @x.a = 1; k = @x.b;", "union @u @x; @x.a = 1; k = @x.c;", UN),
    ("remainder of a float", "double @d = 1; k = @d % 2;", "double @d = 1; k = @d / 2;", ""),
    ("remainder by a float", "k = 5 % 2.0;", "k = 5 / 2.0;", ""),
    ("bitwise and of a float", "double @d = 1; k = @d & 2;", "double @d = 1; k = @d + 2;", ""),
    ("bitwise or of a float", "double @d = 1; k = 2 | @d;", "double @d = 1; k = 2 - @d;", ""),
    ("exclusive or of a float", "float @d = 1; k = 2 ^ @d;", "float @d = 1; k = 2 * @d;", ""),
    ("shift of a float", "double @d = 1; k = @d << 1;", "double @d = 1; k = @d * 1;", ""),
    ("shift by a float", "double @d = 1; k = 8 >> @d;", "double @d = 1; k = 8 > @d;", ""),
    ("complement of a float", "double @d = 1; k = ~@d;", "double @d = 1; k = -@d;", ""),
    ("remainder assignment of a float", "double @d = 1; @d %= 2;", "double @d = 1; @d /= 2;", ""),
    ("shift assignment by a float", "k <<= 2.0;", "k *= 2.0;", ""),
    ("negated pointer", "int *@p = &k; @p = -@p;", "int *@p = &k; @p = @p + -0;", ""),
    ("complemented pointer", "int *@p = &k; k = ~@p;", "int *@p = &k; k = !@p;", ""),
    ("sum of pointers", "int *@p = &k; int *@q = @p + @p;", "int *@p = &k; int *@q = @p + 0;", ""),
    ("product of a pointer", "int *@p = &k; @p = @p * 2;", "int *@p = &k; @p = @p + 0;", ""),
    ("quotient of a pointer", "int *@p = &k; @p = @p / 2;", "int *@p = &k; @p = @p - 0;", ""),
    ("remainder of a pointer", "int *@p = &k; @p = @p % 2;", "int *@p = &k; @p = 0 + @p;", ""),
    ("bitwise and of a pointer", "int *@p = &k; @p = @p & 2;", "int *@p = &k; k = @p && 2;", ""),
    ("shifted pointer", "int *@p = &k; @p = @p << 2;", "int *@p = &k; k = @p != 0;", ""),
    ("pointer plus float", "int *@p = &k; @p = @p + 2.0;", "int *@p = &k; @p = @p + 0;", ""),
    ("integer minus pointer", "int *@p = &k; @p = 2 - @p;", "int *@p = &k; k = @p - @p;", ""),
    ("structure in a sum", "struct @s @x; @x.a = 1; k = @x + 1;", "struct @s @x; @x.a = 1; k = @x.a + 1;", ST),
    ("structure as a condition", "struct @s @x; @x.a = 1; if (@x) k = 1;", "struct @s @x; @x.a = 1; if (@x.a) k = 1;", ST),
    ("structure as a loop condition", "struct @s @x; @x.a = 0; while (@x) k = 1;", "struct @s @x; @x.a = 0; while (@x.a) k = 1;", ST),
    ("negated structure", "struct @s @x; @x.a = 1; k = -@x;", "struct @s @x; @x.a = 1; k = -@x.a;", ST),
    ("logical not of a structure", "struct @s @x; @x.a = 1; k = !@x;", "struct @s @x; @x.a = 1; k = !@x.a;", ST),
    ("structure in a logical and", "struct @s @x; @x.a = 1; k = 1 && @x;", "struct @s @x; @x.a = 1; k = 1 && @x.a;", ST),
    ("structures compared", "struct @s @x; struct @s @y; @x.a = 1; @y.a = 1; k = @x == @y;", "struct @s @x; struct @s @y; @x.a = 1; @y.a = 1; k = @x.a == @y.a;", ST),
    ("structure converted to int", "struct @s @x; @x.a = 1; int @y = @x;", "struct @s @x; @x.a = 1; int @y = @x.a;", ST),
    ("int assigned to a structure", "struct @s @x; @x = 1;", "struct @s @x; @x.a = 1;", ST),
    ("structure initialised by an int", "struct @s @x = 1;", "struct @s @x = {1, 2};", ST),
    ("array initialised by an int", "int @a[2] = 1;", "int @a[2] = {1, 2};", ""),
    ("structure cast to int", "struct @s @x; @x.a = 1; k = (int) @x;", "struct @s @x; @x.a = 1; k = (int) @x.a;", ST),
    ("switch on a structure", "struct @s @x; @x.a = 1; switch (@x) { case 1: k = 1; }", "struct @s @x; @x.a = 1; switch (@x.a) { case 1: k = 1; }", ST),
    ("switch on a float", "switch (1.5) { case 1: k = 1; }", "switch ((int) 1.5) { case 1: k = 1; }", ""),
    ("float as a pointer", "int *@p = 1.5;", "int *@p = (int *) 0;", ""),
    ("pointer as a float", "double @d = &k;", "double @d = k;", ""),
    ("void value initialises", "int @x = @v(1);", "@v(1); int @x = 1;", VF),
    ("void value in a sum", "k = @v(1) + 1;", "@v(1); k = 1;", VF),
    ("void value as an argument", "k = @f(@v(1), 2);", "@v(1); k = @f(1, 2);", VF + FN),
    ("void variable", "void @x; k = 1;", "void *@x; k = 1;", ""),
    ("void array", "void @x[2]; k = 1;", "void *@x[2]; k = 1;", ""),
    ("variable of an undeclared structure", "struct @t @x; k = 1;", "struct @t { int a; }; struct @t @x; k = 1;", ""),
    ("variable of an undeclared union", "union @t @x; k = 1;", "union @t { int a; }; union @t @x; k = 1;", ""),
    ("array of an undeclared structure", "struct @t @x[2]; k = 1;", "struct @s @x[2]; k = 1;", ST),
    ("member of an incomplete structure", "struct @t *@p; @p = 0; if (@p) k = @p->a;", "struct @s *@p; @p = (struct @s *) 0; if (@p) k = @p->a;", ST),
    ("too few arguments", "k = @f(1);", "k = @f(1, 2);", FN),
    ("too many arguments", "k = @f(1, 2, 3);", "k = @f(1, 2);", FN),
    ("arguments to a (void) function", "k = @z(1);", "k = @z();", F0),
    ("no arguments", "k = @f();", "k = @f(3, 4);", FN),
    ("structure as an int argument", "struct @s @x; @x.a = 1; k = @f(@x, 1);", "struct @s @x; @x.a = 1; k = @f(@x.a, 1);", ST + FN),
    ("call of a variable", "k = k(2);", "k = @f(2, 1);", FN),
    ("function name in a sum", "k = @z + 1;", "k = @z() + 1;", F0),
    ("too many array initialisers", "int @a[2] = {1, 2, 3};", "int @a[3] = {1, 2, 3};", ""),
    ("too many structure initialisers", "struct @s @x = {1, 2, 3};", "struct @s @x = {1, 2};", ST),
    ("array of unknown size", "int @a[]; k = 1;", "int @a[] = {1, 2}; k = 1;", ""),
    ("goto to no label", "if (k == 77) goto @nowhere;", "if (k == 77) goto @lab; @lab: ;", ""),
    ("goto to a label of another function", "if (k == 77) goto @far;", "k = @h();", "int @h(void) { goto @far; @far: ; return 1; }\n"),
    ("label defined twice", "if (k == 77) goto @l; @l: ; @l: ;", "if (k == 77) goto @l; @l: ; @m: ;", ""),
    ("two defaults", "switch (k) { case 1: break; default: break; default: break; }", "switch (k) { case 1: break; case 2: break; default: break; }", ""),
    ("missing semicolon", "k = 1 k = 2;", "k = 1; k = 2;", ""),
    ("unbalanced parenthesis", "k = (1 + 2;", "k = (1 + 2);", ""),
    ("extra parenthesis", "k = 1 + 2);", "k = (1 + 2);", ""),
    ("missing operand", "k = 1 + ;", "k = 1 + 2;", ""),
    ("missing operator", "k = 1 2;", "k = 1 - 2;", ""),
    ("bad token", "k = 1 @@ 2;".replace("@@", "`"), "k = 1 ^ 2;", ""),
    ("unterminated string", 'char *@p = "abc;', 'char *@p = "abc";', ""),
    ("digit 8 in an octal constant", "k = 08;", "k = 07;", ""),
    ("digit 9 in an octal constant", "k = 1 + 0129;", "k = 1 + 0127;", ""),
    ("empty character constant", "k = '';", "k = 'a';", ""),
    ("keyword as a name", "int while = 3;", "int @while = 3;", ""),
    ("else without if", "k = 1; else k = 2;", "if (k) k = 1; else k = 2;", ""),
    ("do without while", "do { k = 1; } (0);", "do { k = 1; } while (0);", ""),
    ("if without parentheses", "if k k = 1;", "if (k) k = 1;", ""),
    ("for with one semicolon", "for (k = 0; k < 2) k++;", "for (k = 0; k < 2;) k++;", ""),
    ("ternary without a colon", "k = k ? 1;", "k = k ? 1 : 2;", ""),
    ("two type names", "int char @x; k = 1;", "int @x; k = 1;", ""),
    ("unsigned double", "unsigned double @x; k = 1;", "unsigned int @x; k = 1;", ""),
    ("missing subscript", "int @a[2]; k = @a[];", "int @a[2]; @a[0] = 1; k = @a[0];", ""),
    ("missing member name", "struct @s @x; @x.a = 1; k = @x.;", "struct @s @x; @x.a = 1; k = @x.a;", ST),
    ("missing declarator", "int = 3;", "int @x = 3;", ""),
    ("return without a value", "if (k == 77) return;", "if (k == 77) return 1;", ""),
]
# only where no loop / switch encloses
BARE = [
    ("break outside a loop", "if (k) break;", "while (k) break;", ""),
    ("continue outside a loop", "if (k) continue;", "while (k) { k = 0; continue; }", ""),
    ("continue in a switch only", "switch (k) { case 1: continue; }", "switch (k) { case 1: break; }", ""),
    ("case outside a switch", "case 1: k = 1;", "switch (k) { case 1: k = 1; }", ""),
    ("default outside a switch", "default: k = 1;", "switch (k) { default: k = 1; }", ""),
]
FILE = [
    ("automatic object at file scope", "auto int @x;", "static int @x;"),
    ("register object at file scope", "register int @x = 1;", "int @x = 1;"),
    ("inline object at file scope", "inline int @x;", "extern int @x;"),
    ("automatic function", "auto int @f(void) { return 1; }", "static int @f(void) { return 1; }"),
    ("static parameter", "int @f(static int a) { return a; }", "int @f(register int a) { return a; }"),
    ("extern parameter", "int @f(int b, extern int a) { return a; }", "int @f(int b, int a) { return a; }"),
    ("static member", "struct @s { static int a; };", "struct @s { int a; };"),
    ("register union member", "union @u { int b; register int a; };", "union @u { int b; const int a; };"),
    ("function returning an array", "int @f(void)[2];", "int @f(void);"),
    ("array of functions", "int @f[2](void);", "int @f(int a[2]);"),
    ("void among parameters", "int @f(int a, void);", "int @f(int a, void *);"),
    ("named void parameter", "int @f(void a) { return 1; }", "int @f(void *a) { return 1; }"),
    ("void before parameters", "int @f(void, int a) { return a; }", "int @f(char, int a);"),
    ("empty enumeration at file scope", "enum @e { };", "enum @e { @A, };"),
    ("conflicting declarations", "int @f(int a); char @f(int a) { return a; }", "int @f(int a); int @f(int a) { return a; }"),
    ("conflicting parameters", "int @f(int a); int @f(double a) { return a; }", "int @f(double a); int @f(double a) { return a; }"),
    ("function defined twice", "int @f(void) { return 1; } int @f(void) { return 2; }", "int @f(void) { return 1; } int @g(void) { return 2; }"),
    ("repeated parameter", "int @f(int a, int a) { return a; }", "int @f(int a, int b) { return a; }"),
    ("global redeclared with another type", "int @x; char @x;", "int @x; int @x;"),
    ("structure declared twice", "struct @s { int a; }; struct @s { int b; };", "struct @s { int a; }; struct @t { int b; };"),
    ("enumeration declared twice", "enum @e { @A }; enum @e { @B };", "enum @e { @A }; enum @d { @B };"),
    ("enumeration constant declared twice", "enum @e { @A }; enum @d { @A };", "enum @e { @A }; enum @d { @B };"),
    ("parameter redeclared in the body", "int @f(int a) { int a = 1; return a; }", "int @f(int a) { int b = 1; { int a = 2; b += a; } return a + b; }"),
    ("array parameter redeclared in the body", "int @f(int n, char a[]) { char a[4]; return n; }", "int @f(int n, char a[]) { char b[4]; return n; }"),
    ("typedef redeclared with another type", "typedef int @t; typedef char @t;", "typedef int @t; typedef char @u;"),
    ("incomplete member", "struct @s { struct @t x; };", "struct @t { int a; }; struct @s { struct @t x; };"),
    ("structure containing itself", "struct @s { struct @s x; };", "struct @s { struct @s *x; };"),
    ("void member", "struct @s { void a; };", "struct @s { void *a; };"),
    ("incomplete global", "struct @s @x;", "struct @s { int a; }; struct @s @x;"),
    ("value returned from a void function", "void @f(int k) { if (k) return 3; }", "void @f(int k) { if (k) return; }"),
    ("structure returned as int", "struct @s { int a; }; int @f(void) { struct @s x; x.a = 1; return x; }", "struct @s { int a; }; int @f(void) { struct @s x; x.a = 1; return x.a; }"),
    ("unknown type of a parameter", "int @f(@t a) { return 1; }", "typedef int @t; int @f(@t a) { return 1; }"),
    ("unknown return type", "@t @f(void) { return 1; }", "typedef int @t; @t @f(void) { return 1; }"),
    ("unknown type of a global", "@t @x;", "typedef int @t; @t @x;"),
    ("variable used as a type", "int @x; @x @y;", "typedef int @x; @x @y;"),
    ("global used before its declaration", "int @f(void) { return @g; } int @g = 1;", "int @g = 1; int @f(void) { return @g; }"),
    ("function used before any declaration", "int @f(int a) { return @g(a, 1) + 1; } int @g(int a, double b) { return a; }", "int @g(int a, double b); int @f(int a) { return @g(a, 1) + 1; } int @g(int a, double b) { return a; }"),
    ("function called with the wrong count before its definition", "int @g(int a, int b); int @f(int a) { return @g(a); } int @g(int a, int b) { return a; }", "int @g(int a, int b); int @f(int a) { return @g(a, 2); } int @g(int a, int b) { return a; }"),
    ("extra closing brace", "int @f(void) { return 1; } }", "int @f(void) { return 1; }"),
    ("missing parameter list end", "int @f(int a { return a; }", "int @f(int a) { return a; }"),
    ("unnamed parameter comma", "int @f(int a,) { return a; }", "int @f(int a) { return a; }"),
    ("unknown include", '#include <@nothere.h>\n', "#include <ctype.h>\n"),
    ("error directive", "#error stop\n", "/* #error stop */\n"),
    ("unterminated conditional", "#if 1\nint @x;\n", "#if 1\nint @x;\n#endif\n"),
    ("endif without if", "int @x;\n#endif\n", "int @x;\n"),
    ("macro called with too few arguments", "#define @M(a, b) ((a) + (b))\nint @f(void) { return @M(1); }\n", "#define @M(a, b) ((a) + (b))\nint @f(void) { return @M(1, 2); }\n"),
]
# whole-program entries: what is done to an otherwise valid program
WHOLE = ["no main", "truncated in a function body", "unclosed comment", "second main"]

# type specifiers: the combinations C knows (and the compiler takes), as sorted words
BASIC = ["char", "signed char", "unsigned char", "short", "short int", "signed short", "signed short int", "unsigned short", "unsigned short int", "int", "signed", "signed int", "unsigned", "unsigned int",
         "long", "long int", "signed long", "signed long int", "unsigned long", "unsigned long int", "float", "double"]
VALID = {" ".join(sorted(x.split())) for x in BASIC}
C_VALID = VALID | {" ".join(sorted(x.split())) for x in ["long long", "long long int", "signed long long", "signed long long int", "unsigned long long", "unsigned long long int", "long double"]}


def specifiers(r):
    """(name, bad, good, support): a declaration whose type specifiers cannot stand together, and one whose can."""
    sup = "struct @s { int a; };\nunion @u { int a; char c; };\nenum @e { @E0 };\ntypedef int @t;\n"
    words = ["char", "short", "int", "long", "signed", "unsigned", "float", "double"]
    odd = ["void", "struct @s", "union @u", "enum @e", "@t"]
    while True:
        ws = [r.choice(words) for _ in range(r.choice([1, 2, 2, 3]))]
        if r.random() < 0.5:
            ws.append(r.choice(odd))
        if r.random() < 0.15 and ws[-1] in odd:
            ws.append(r.choice(odd))
        if ws.count("@t") and ws[0] != "@t":  # after other specifiers a typedef name would be the declared name
            continue
        r.shuffle(ws)
        if "@t" in ws:
            ws.remove("@t")
            ws.insert(0, "@t")
        if max(ws.count(x) for x in ("short", "signed", "unsigned")) > 1:  # (clang takes them)
            continue
        if len(ws) > 1 and " ".join(sorted(" ".join(ws).split())) not in C_VALID:
            break
    good = r.choice(BASIC).split() if r.random() < 0.7 else [r.choice(odd)]
    r.shuffle(good)
    where = r.choice(["variable", "pointer", "cast", "sizeof", "array", "member", "parameter", "result"])
    def use(w):
        s = " ".join(w)
        if where == "variable" and s != "void": return f"{s} @x;", ""
        if where == "array" and s != "void": return f"{s} @x[3];", ""
        if where == "sizeof" and s != "void": return f"k = sizeof({s});", ""
        if where == "member": return "k = 2;", f"struct @m {{ int a; {s} *b; }};\n"
        if where == "cast": return f"{s} *@p = ({s} *) 0;", ""
        if where == "parameter": return "k = 3;", f"int @f({s} *a, int b);\n"
        if where == "result": return "k = 4;", f"{s} *@f(int b);\n"
        return f"{s} *@x;", ""
    (bs, bf), (gs, gf) = use(ws), use(good)
    return f"conflicting specifiers: {' '.join(ws)}", bs, gs, sup + bf, sup + gf
