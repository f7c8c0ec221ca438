/* included in front of a program built by the strict reference: printf looks at every byte of the strings it is given,
   so that MemorySanitizer sees those nobody has written */
#include <stdio.h>
#include <stdarg.h>
static volatile int strict_sink;
static int strict_printf(const char *f, ...) {
    const char *f0 = f;
    va_list a, b;
    va_start(a, f);
    va_copy(b, a);
    for (; *f; f++) {
        if (*f != '%') continue;
        int l = 0;
        while (*++f == 'l' || *f == 'h') l += *f == 'l';
        if (*f == '%') continue;
        if (*f == 's') { for (const char *s = va_arg(b, const char *); *s; s++) strict_sink++; }
        else if (*f == 'f') (void) va_arg(b, double);
        else if (l) { if (va_arg(b, long)) strict_sink++; }
        else if (va_arg(b, int)) strict_sink++;
    }
    va_end(b);
    int n = vprintf(f0, a);
    va_end(a);
    return n;
}
#define printf strict_printf
