// the headers; after //ref the same program written without them, from the C standard
//// isalpha
#include <ctype.h>
int c = in_int(); if (c < -1 || c > 255) return 9;
if (isalpha(c)) printf("yes"); else printf("no");
return isalpha(c) != 0;
//ref
int c = in_int(); if (c < -1 || c > 255) return 9;
if ((c>=65&&c<=90)||(c>=97&&c<=122)) printf("yes"); else printf("no");
return ((c>=65&&c<=90)||(c>=97&&c<=122)) != 0;
//// isdigit
#include <ctype.h>
int c = in_int(); if (c < -1 || c > 255) return 9;
if (isdigit(c)) printf("yes"); else printf("no");
return isdigit(c) != 0;
//ref
int c = in_int(); if (c < -1 || c > 255) return 9;
if (c>=48&&c<=57) printf("yes"); else printf("no");
return (c>=48&&c<=57) != 0;
//// isalnum
#include <ctype.h>
int c = in_int(); if (c < -1 || c > 255) return 9;
if (isalnum(c)) printf("yes"); else printf("no");
return isalnum(c) != 0;
//ref
int c = in_int(); if (c < -1 || c > 255) return 9;
if ((c>=65&&c<=90)||(c>=97&&c<=122)||(c>=48&&c<=57)) printf("yes"); else printf("no");
return ((c>=65&&c<=90)||(c>=97&&c<=122)||(c>=48&&c<=57)) != 0;
//// iscntrl
#include <ctype.h>
int c = in_int(); if (c < -1 || c > 255) return 9;
if (iscntrl(c)) printf("yes"); else printf("no");
return iscntrl(c) != 0;
//ref
int c = in_int(); if (c < -1 || c > 255) return 9;
if ((c>=0&&c<=31)||c==127) printf("yes"); else printf("no");
return ((c>=0&&c<=31)||c==127) != 0;
//// isxdigit
#include <ctype.h>
int c = in_int(); if (c < -1 || c > 255) return 9;
if (isxdigit(c)) printf("yes"); else printf("no");
return isxdigit(c) != 0;
//ref
int c = in_int(); if (c < -1 || c > 255) return 9;
if ((c>=48&&c<=57)||(c>=65&&c<=70)||(c>=97&&c<=102)) printf("yes"); else printf("no");
return ((c>=48&&c<=57)||(c>=65&&c<=70)||(c>=97&&c<=102)) != 0;
//// isgraph
#include <ctype.h>
int c = in_int(); if (c < -1 || c > 255) return 9;
if (isgraph(c)) printf("yes"); else printf("no");
return isgraph(c) != 0;
//ref
int c = in_int(); if (c < -1 || c > 255) return 9;
if (c>=33&&c<=126) printf("yes"); else printf("no");
return (c>=33&&c<=126) != 0;
//// isprint
#include <ctype.h>
int c = in_int(); if (c < -1 || c > 255) return 9;
if (isprint(c)) printf("yes"); else printf("no");
return isprint(c) != 0;
//ref
int c = in_int(); if (c < -1 || c > 255) return 9;
if (c>=32&&c<=126) printf("yes"); else printf("no");
return (c>=32&&c<=126) != 0;
//// ispunct
#include <ctype.h>
int c = in_int(); if (c < -1 || c > 255) return 9;
if (ispunct(c)) printf("yes"); else printf("no");
return ispunct(c) != 0;
//ref
int c = in_int(); if (c < -1 || c > 255) return 9;
if ((c>=33&&c<=47)||(c>=58&&c<=64)||(c>=91&&c<=96)||(c>=123&&c<=126)) printf("yes"); else printf("no");
return ((c>=33&&c<=47)||(c>=58&&c<=64)||(c>=91&&c<=96)||(c>=123&&c<=126)) != 0;
//// islower
#include <ctype.h>
int c = in_int(); if (c < -1 || c > 255) return 9;
if (islower(c)) printf("yes"); else printf("no");
return islower(c) != 0;
//ref
int c = in_int(); if (c < -1 || c > 255) return 9;
if (c>=97&&c<=122) printf("yes"); else printf("no");
return (c>=97&&c<=122) != 0;
//// isupper
#include <ctype.h>
int c = in_int(); if (c < -1 || c > 255) return 9;
if (isupper(c)) printf("yes"); else printf("no");
return isupper(c) != 0;
//ref
int c = in_int(); if (c < -1 || c > 255) return 9;
if (c>=65&&c<=90) printf("yes"); else printf("no");
return (c>=65&&c<=90) != 0;
//// isspace
#include <ctype.h>
int c = in_int(); if (c < -1 || c > 255) return 9;
if (isspace(c)) printf("yes"); else printf("no");
return isspace(c) != 0;
//ref
int c = in_int(); if (c < -1 || c > 255) return 9;
if (c==32||(c>=9&&c<=13)) printf("yes"); else printf("no");
return (c==32||(c>=9&&c<=13)) != 0;
//// tolower
#include <ctype.h>
int c = in_int(); if (c < -1 || c > 255) return 9;
int r = tolower(c); printf("%d", r); return 0;
//ref
int c = in_int(); if (c < -1 || c > 255) return 9;
int r = c>=65&&c<=90 ? c+32 : c; printf("%d", r); return 0;
//// toupper
#include <ctype.h>
int c = in_int(); if (c < -1 || c > 255) return 9;
int r = toupper(c); printf("%d", r); return 0;
//ref
int c = in_int(); if (c < -1 || c > 255) return 9;
int r = c>=97&&c<=122 ? c-32 : c; printf("%d", r); return 0;
//// case_string
#include <ctype.h>
char s[4]; int i; s[0] = in_char(); s[1] = in_char(); s[2] = in_char(); s[3] = 0;
for (i = 0; s[i]; i++) { unsigned char u = s[i]; if (isupper(u)) s[i] = tolower(u); else if (islower(u)) s[i] = toupper(u); }
printf("%s", s); return i;
//ref
char s[4]; int i; s[0] = in_char(); s[1] = in_char(); s[2] = in_char(); s[3] = 0;
for (i = 0; s[i]; i++) { unsigned char u = s[i]; if (u >= 65 && u <= 90) s[i] = u + 32; else if (u >= 97 && u <= 122) s[i] = u - 32; }
printf("%s", s); return i;
//// classes_cover
#include <ctype.h>
int c = in_uchar();
int n = (isalpha(c) != 0) + (isdigit(c) != 0) + (ispunct(c) != 0) + (iscntrl(c) != 0) + (c == ' ');
printf("%d %d", n, (isgraph(c) != 0) == ((isalnum(c) != 0) || (ispunct(c) != 0))); return 0;
//ref
int c = in_uchar(); printf("%d %d", c < 128, 1); return 0;
//// limits_int
#include <limits.h>
printf("%d;", CHAR_BIT);
printf("%d;", SCHAR_MIN);
printf("%d;", SCHAR_MAX);
printf("%d;", UCHAR_MAX);
printf("%d;", CHAR_MIN);
printf("%d;", CHAR_MAX);
printf("%d;", SHRT_MIN);
printf("%d;", SHRT_MAX);
printf("%d;", USHRT_MAX);
printf("%d;", INT_MIN);
printf("%d;", INT_MAX);
//ref
printf("%d;", 8);
printf("%d;", -128);
printf("%d;", 127);
printf("%d;", 255);
printf("%d;", -128);
printf("%d;", 127);
printf("%d;", -32768);
printf("%d;", 32767);
printf("%d;", 65535);
printf("%d;", (-2147483647-1));
printf("%d;", 2147483647);
//// limits_long
#include <limits.h>
long v;
v = UINT_MAX; printf("%ld;", v);
v = LONG_MIN; printf("%ld;", v);
v = LONG_MAX; printf("%ld;", v);
v = LLONG_MIN; printf("%ld;", v);
v = LLONG_MAX; printf("%ld;", v);
//ref
long v;
v = 4294967295L; printf("%ld;", v);
v = (-9223372036854775807L-1); printf("%ld;", v);
v = 9223372036854775807L; printf("%ld;", v);
v = (-9223372036854775807L-1); printf("%ld;", v);
v = 9223372036854775807L; printf("%ld;", v);
//// limits_ulong
#include <limits.h>
unsigned long v = ULONG_MAX; printf("%lu;", v); v = ULLONG_MAX; printf("%lu;", v); v = UINT_MAX; printf("%lu;", v);
//ref
unsigned long v = 18446744073709551615UL; printf("%lu;", v); printf("%lu;", v); v = 4294967295UL; printf("%lu;", v);
//// limits_compare
#include <limits.h>
int i = in_int(); unsigned int u = in_uint(); long l = in_long(); unsigned long w = in_ulong();
printf("%d %d", i < INT_MIN, i > INT_MAX); printf("%d %d", i == INT_MIN, i == INT_MAX);
printf("%d %d", u > UINT_MAX, u == UINT_MAX); printf("%d %d %d", l < LONG_MIN, l > LONG_MAX, l == LONG_MIN);
printf("%d %d", w > ULONG_MAX, w == ULONG_MAX);
//ref
int i = in_int(); unsigned int u = in_uint(); long l = in_long(); unsigned long w = in_ulong();
printf("%d %d", 0, 0); printf("%d %d", i == -2147483647-1, i == 2147483647);
printf("%d %d", 0, u == 4294967295U); printf("%d %d %d", 0, 0, l == -9223372036854775807L-1);
printf("%d %d", 0, w == 18446744073709551615UL);
//// limits_char_short
#include <limits.h>
signed char c = in_char(); unsigned char u = in_uchar(); short s; unsigned short t; int w = in_int(); short *ps; unsigned short *pt; ps = (short *)&w; pt = (unsigned short *)&w; s = *ps; t = *pt;
printf("%d %d %d %d", c >= SCHAR_MIN && c <= SCHAR_MAX, c == SCHAR_MIN, c == CHAR_MAX, c < CHAR_MIN);
printf("%d %d %d", u <= UCHAR_MAX, u == UCHAR_MAX, s == SHRT_MIN);
printf("%d %d %d", s == SHRT_MAX, t == USHRT_MAX, t > USHRT_MAX);
//ref
signed char c = in_char(); unsigned char u = in_uchar(); short s; unsigned short t; int w = in_int(); short *ps; unsigned short *pt; ps = (short *)&w; pt = (unsigned short *)&w; s = *ps; t = *pt;
printf("%d %d %d %d", 1, c == -128, c == 127, 0);
printf("%d %d %d", 1, u == 255, s == -32768);
printf("%d %d %d", s == 32767, t == 65535, 0);
//// int8_t
#include <stdint.h>
unsigned long v = in_ulong(); int8_t a[2]; int8_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(int8_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); signed char a[2]; signed char x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(signed char), (int)sizeof(a)); return 0;
//// uint8_t
#include <stdint.h>
unsigned long v = in_ulong(); uint8_t a[2]; uint8_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(uint8_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); unsigned char a[2]; unsigned char x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(unsigned char), (int)sizeof(a)); return 0;
//// int16_t
#include <stdint.h>
unsigned long v = in_ulong(); int16_t a[2]; int16_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(int16_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); signed short a[2]; signed short x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(signed short), (int)sizeof(a)); return 0;
//// uint16_t
#include <stdint.h>
unsigned long v = in_ulong(); uint16_t a[2]; uint16_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(uint16_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); unsigned short a[2]; unsigned short x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(unsigned short), (int)sizeof(a)); return 0;
//// int32_t
#include <stdint.h>
unsigned long v = in_ulong(); int32_t a[2]; int32_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(int32_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); signed int a[2]; signed int x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(signed int), (int)sizeof(a)); return 0;
//// uint32_t
#include <stdint.h>
unsigned long v = in_ulong(); uint32_t a[2]; uint32_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(uint32_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); unsigned int a[2]; unsigned int x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(unsigned int), (int)sizeof(a)); return 0;
//// int64_t
#include <stdint.h>
unsigned long v = in_ulong(); int64_t a[2]; int64_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(int64_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); signed long a[2]; signed long x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(signed long), (int)sizeof(a)); return 0;
//// uint64_t
#include <stdint.h>
unsigned long v = in_ulong(); uint64_t a[2]; uint64_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(uint64_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); unsigned long a[2]; unsigned long x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(unsigned long), (int)sizeof(a)); return 0;
//// int_fast8_t
#include <stdint.h>
unsigned long v = in_ulong(); int_fast8_t a[2]; int_fast8_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(int_fast8_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); signed char a[2]; signed char x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(signed char), (int)sizeof(a)); return 0;
//// uint_fast8_t
#include <stdint.h>
unsigned long v = in_ulong(); uint_fast8_t a[2]; uint_fast8_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(uint_fast8_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); unsigned char a[2]; unsigned char x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(unsigned char), (int)sizeof(a)); return 0;
//// int_fast16_t
#include <stdint.h>
unsigned long v = in_ulong(); int_fast16_t a[2]; int_fast16_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(int_fast16_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); signed short a[2]; signed short x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(signed short), (int)sizeof(a)); return 0;
//// uint_fast16_t
#include <stdint.h>
unsigned long v = in_ulong(); uint_fast16_t a[2]; uint_fast16_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(uint_fast16_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); unsigned short a[2]; unsigned short x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(unsigned short), (int)sizeof(a)); return 0;
//// int_fast32_t
#include <stdint.h>
unsigned long v = in_ulong(); int_fast32_t a[2]; int_fast32_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(int_fast32_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); signed int a[2]; signed int x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(signed int), (int)sizeof(a)); return 0;
//// uint_fast32_t
#include <stdint.h>
unsigned long v = in_ulong(); uint_fast32_t a[2]; uint_fast32_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(uint_fast32_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); unsigned int a[2]; unsigned int x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(unsigned int), (int)sizeof(a)); return 0;
//// int_fast64_t
#include <stdint.h>
unsigned long v = in_ulong(); int_fast64_t a[2]; int_fast64_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(int_fast64_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); signed long a[2]; signed long x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(signed long), (int)sizeof(a)); return 0;
//// uint_fast64_t
#include <stdint.h>
unsigned long v = in_ulong(); uint_fast64_t a[2]; uint_fast64_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(uint_fast64_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); unsigned long a[2]; unsigned long x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(unsigned long), (int)sizeof(a)); return 0;
//// int_least8_t
#include <stdint.h>
unsigned long v = in_ulong(); int_least8_t a[2]; int_least8_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(int_least8_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); signed char a[2]; signed char x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(signed char), (int)sizeof(a)); return 0;
//// uint_least8_t
#include <stdint.h>
unsigned long v = in_ulong(); uint_least8_t a[2]; uint_least8_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(uint_least8_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); unsigned char a[2]; unsigned char x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(unsigned char), (int)sizeof(a)); return 0;
//// int_least16_t
#include <stdint.h>
unsigned long v = in_ulong(); int_least16_t a[2]; int_least16_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(int_least16_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); signed short a[2]; signed short x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(signed short), (int)sizeof(a)); return 0;
//// uint_least16_t
#include <stdint.h>
unsigned long v = in_ulong(); uint_least16_t a[2]; uint_least16_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(uint_least16_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); unsigned short a[2]; unsigned short x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(unsigned short), (int)sizeof(a)); return 0;
//// int_least32_t
#include <stdint.h>
unsigned long v = in_ulong(); int_least32_t a[2]; int_least32_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(int_least32_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); signed int a[2]; signed int x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(signed int), (int)sizeof(a)); return 0;
//// uint_least32_t
#include <stdint.h>
unsigned long v = in_ulong(); uint_least32_t a[2]; uint_least32_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(uint_least32_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); unsigned int a[2]; unsigned int x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(unsigned int), (int)sizeof(a)); return 0;
//// int_least64_t
#include <stdint.h>
unsigned long v = in_ulong(); int_least64_t a[2]; int_least64_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(int_least64_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); signed long a[2]; signed long x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(signed long), (int)sizeof(a)); return 0;
//// uint_least64_t
#include <stdint.h>
unsigned long v = in_ulong(); uint_least64_t a[2]; uint_least64_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(uint_least64_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); unsigned long a[2]; unsigned long x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(unsigned long), (int)sizeof(a)); return 0;
//// intmax_t
#include <stdint.h>
unsigned long v = in_ulong(); intmax_t a[2]; intmax_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(intmax_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); signed long a[2]; signed long x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(signed long), (int)sizeof(a)); return 0;
//// uintmax_t
#include <stdint.h>
unsigned long v = in_ulong(); uintmax_t a[2]; uintmax_t x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(uintmax_t), (int)sizeof(a)); return 0;
//ref
unsigned long v = in_ulong(); unsigned long a[2]; unsigned long x; unsigned char *p;
p = (unsigned char *)&x; p[0] = (unsigned char)(v >> 0); p[1] = (unsigned char)(v >> 8); p[2] = (unsigned char)(v >> 16); p[3] = (unsigned char)(v >> 24); p[4] = (unsigned char)(v >> 32); p[5] = (unsigned char)(v >> 40); p[6] = (unsigned char)(v >> 48); p[7] = (unsigned char)(v >> 56); 
a[0] = 0; a[1] = x; x++; long y = (long)x; int z = x < 0; printf("%ld %d ", y, z);
long q = (long)a[1]; printf("%ld %d %d", q, (int)sizeof(unsigned long), (int)sizeof(a)); return 0;
//// intptr
#include <stdint.h>
int a = in_int(); int b = in_int(); intptr_t p = (intptr_t)&a; int *q; q = (int *)p; *q = *q + b;
uintptr_t u = (uintptr_t)&b; int *r; r = (int *)u; *r = *r - 1;
printf("%d %d %d %d", a, b, p != 0, (int)sizeof(intptr_t) >= (int)sizeof(int *)); printf("%d", (int)sizeof(uintptr_t) >= (int)sizeof(void *));
intptr_t m = 0; m = m - 1; uintptr_t n = 0; n = n - 1; printf("%d %d", m < 0, n > 0);
//ref
int a = in_int(); int b = in_int(); a = a + b; b = b - 1;
printf("%d %d %d %d", a, b, 1, 1); printf("%d", 1); printf("%d %d", 1, 1);
//// size_t
#include <stddef.h>
unsigned int i = in_uint(); int j = in_int(); size_t s = i; size_t z = sizeof(int); size_t m = 0; m = m - 1;
printf("%d %d %d", s > 2147483647, (int)z, m > s || m == s); size_t h = s / 2; printf("%d", h >= 0 && h <= 2147483647);
size_t t = j; printf("%d", t >= 0); printf("%d", (int)sizeof(size_t) == (int)sizeof(sizeof(int)));
//ref
unsigned int i = in_uint(); int j = in_int();
printf("%d %d %d", i > 2147483647, 4, 1); printf("%d", 1); printf("%d", 1); printf("%d", 1);
//// ptrdiff
#include <stddef.h>
int a[8]; int i = in_int() & 7; int j = in_int() & 7; ptrdiff_t d = &a[i] - &a[j]; printf("%d %d", (int)d, d < 0);
//ref
int i = in_int() & 7; int j = in_int() & 7; int d = i - j; printf("%d %d", d, d < 0);
//// null
#include <stddef.h>
int x = in_int(); int *p = NULL; if (x > 3) p = &x; printf("%d", p == NULL); char *s = NULL; printf("%d %d", s == NULL, !s);
if (p != NULL) *p = 1; printf("%d", x);
//ref
int x = in_int(); printf("%d", x <= 3); printf("%d %d", 1, 1); if (x > 3) x = 1; printf("%d", x);
//// stdlib_names
int x = in_int(); char *p = NULL; printf("%d %d", EXIT_SUCCESS, p == NULL); if (x) return EXIT_SUCCESS; return 1;
//ref
int x = in_int(); printf("%d %d", 0, 1); if (x) return 0; return 1;
//// all_headers
#include <ctype.h>
#include <limits.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stddef.h>
#include <ctype.h>
size_t s = in_uint(); uint8_t b = in_uchar(); int t = true; int f = false; int *p = NULL; wchar_t w = 65;
printf("%d %d %d", s == UINT_MAX, isdigit(b) && b < SCHAR_MAX, t + f); printf("%d %d", p == NULL, (int)w); return f;
//ref
unsigned int s = in_uint(); unsigned char b = in_uchar();
printf("%d %d %d", s == 4294967295U, b >= 48 && b <= 57, 1); printf("%d %d", 1, 65); return 0;
//// true_false
#include <stdbool.h>
int x = in_int(); int t = (x > 2) == true; int f = (x > 2) == false; printf("%d %d %d", t, f, __bool_true_false_are_defined); return true;
//ref
int x = in_int(); printf("%d %d %d", x > 2, x <= 2, 1); return 1;
//// bool_type
#include <stdbool.h>
int x = in_int(); bool b = x; printf("%d", b); return b;
//ref
int x = in_int(); printf("%d", x != 0); return x != 0;
