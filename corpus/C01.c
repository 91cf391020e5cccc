//// intarith
int a=in_int(),b=in_int(); printf("%d %d %d %d\n",a+b,a-b,a*b,-a);
//// intdiv
int a=in_int(),b=in_int(); printf("%d\n",a/b); printf("%d\n",a%b);
//// intbit
int a=in_int(),b=in_int(); printf("%d %d %d %d\n",a&b,a|b,a^b,~a);
//// intshift
int a=in_int(),b=in_int(); printf("%d %d\n",a<<b,a>>b);
//// uarith
unsigned int a=in_uint(),b=in_uint(); printf("%u %u %u\n",a+b,a-b,a*b);
//// udiv
unsigned int a=in_uint(),b=in_uint(); printf("%u %u\n",a/b,a%b);
//// ushift
unsigned int a=in_uint(); int b=in_int(); printf("%u %u\n",a<<b,a>>b);
//// uneg
unsigned int a=in_uint(); unsigned int c = ~a; printf("%u\n",c); c = -a; printf("%u\n",c);
//// longarith
long a=in_long(),b=in_long(); printf("%ld %ld %ld %ld\n",a+b,a-b,a*b,-a);
//// longdiv
long a=in_long(),b=in_long(); printf("%ld\n",a/b); printf("%ld\n",a%b);
//// longbit
long a=in_long(),b=in_long(); printf("%ld %ld %ld %ld\n",a&b,a|b,a^b,~a);
//// longshift
long a=in_long(); int b=in_int(); printf("%ld %ld\n",a<<b,a>>b);
//// ulong
unsigned long a=in_ulong(),b=in_ulong(); printf("%lu %lu %lu\n",a+b,a*b,a-b);
//// ulongdiv
unsigned long a=in_ulong(),b=in_ulong(); printf("%lu %lu\n",a/b,a%b);
//// ulongshift
unsigned long a=in_ulong(); int b=in_int(); printf("%lu %lu\n",a<<b,a>>b);
//// chararith
char a=in_char(),b=in_char(); printf("%d %d %d\n",a+b,a*b,a-b);
//// uchararith
unsigned char a=in_uchar(),b=in_uchar(); printf("%d %d %d\n",a+b,a*b,a-b);
//// mixintuint
int a=in_int(); unsigned int b=in_uint(); printf("%d %u\n",a<b,a+b);
//// mixintlong
int a=in_int(); long b=in_long(); printf("%d %ld\n",a<b,a+b);
//// mixuintlong
unsigned int a=in_uint(); long b=in_long(); printf("%d %ld\n",a<b,a+b);
//// mixintulong
int a=in_int(); unsigned long b=in_ulong(); printf("%d %lu\n",a<b,a+b);
//// mixlongulong
long a=in_long(); unsigned long b=in_ulong(); printf("%d %lu\n",a<b,a+b);
//// mixcharint
char a=in_char(); int b=in_int(); printf("%d %d\n",a<b,a-b);
//// mixcharuint
char a=in_char(); unsigned int b=in_uint(); printf("%d %u\n",a<b,a-b);
//// neg_uint
unsigned int a=in_uint(); printf("%u\n",-a);
//// neg_char
char a=in_char(); printf("%d\n",-a);
//// neg_uchar
unsigned char a=in_uchar(); printf("%d\n",-a);
//// not_char
char a=in_char(); printf("%d\n",~a);
//// not_ulong
unsigned long a=in_ulong(); printf("%lu\n",~a); printf("%lu\n",-a);
//// shl_char
char a=in_char(); int b=in_int(); printf("%d\n",a>>b);
//// shift_long_amt
int a=in_int(); long b=in_long(); printf("%d\n",a>>b);
//// shift_uintint
int a=in_int(); unsigned int b=in_uint(); printf("%d\n",a>>b);
