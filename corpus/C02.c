//// charassign
char a=in_int(); int x=a; printf("%d\n",x);
//// ucharassign
unsigned char a=in_int(); int x=a; printf("%d\n",x);
//// chartolong
char a=in_int(); long x=a; printf("%ld\n",x);
//// chartoulong
char a=in_int(); unsigned long x=a; printf("%lu\n",x);
//// chartouint
char a=in_int(); unsigned int x=a; printf("%u\n",x);
//// uchartolong
unsigned char a=in_int(); long x=a; printf("%ld\n",x); unsigned int y=a; printf("%u\n",y); unsigned long z=a; printf("%lu\n",z);
//// inttolong
int a=in_int(); long x=a; printf("%ld\n",x); unsigned long y=a; printf("%lu\n",y); unsigned int z=a; printf("%u\n",z);
//// uinttolong
unsigned int a=in_uint(); long x=a; printf("%ld\n",x); unsigned long y=a; printf("%lu\n",y);
//// uinttoint
unsigned int a=in_uint(); int x=a; printf("%d\n",x);
//// longtoulong
long a=in_long(); unsigned long x=a; printf("%lu\n",x);
//// ulongtolong
unsigned long a=in_ulong(); long x=a; printf("%ld\n",x);
//// longtouint
long a=in_long(); unsigned int x=a; printf("%u\n",x);
//// ulongtouint
unsigned long a=in_ulong(); unsigned int x=a; printf("%u\n",x);
//// longtochar
long a=in_long(); char x=a; int i = x; printf("%d\n",i);
//// ulongtochar
unsigned long a=in_ulong(); unsigned char x=a; int i = x; printf("%d\n",i);
//// uinttochar
unsigned int a=in_uint(); char x=a; int i = x; printf("%d\n",i); unsigned char y=a; i=y; printf("%d\n",i);
//// vararg_char
char c=in_char(); printf("%d\n",c);
//// vararg_uchar
unsigned char c=in_uchar(); printf("%d\n",c);
//// vararg_const
printf("%d %d %d %ld %d\n",1,-1,300,5000000000, 70000);
//// vararg_c
char c=in_char(); printf("%c\n",c);
//// castchain
int a=in_int(); int b=(int)(char)a; printf("%d\n",b); b=(int)(unsigned char)a; printf("%d\n",b); long l=(long)(unsigned int)a; printf("%ld\n",l);
//// shortc
short s = 5; int a=in_int(); int b = a+s; printf("%d\n",b);
//// ushortc
unsigned short s = 65000; int a=in_int(); int b = a+s; printf("%d\n",b);
//// shortptr
int a=in_int(); short s = *(short*)&a; int b = s; printf("%d\n",b); printf("%hd\n",s);
//// ushortptr
int a=in_int(); unsigned short s = *(unsigned short*)&a; int b = s; printf("%d\n",b); unsigned int u = s; printf("%u\n",u); long l=s; printf("%ld\n",l);
//// shortconv
int a=in_int(); short s = *(short*)&a; unsigned int u = s; printf("%u\n",u); long l=s; printf("%ld\n",l); unsigned long ul=s; printf("%lu\n",ul);
