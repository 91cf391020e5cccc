//// incdec
int a=in_int(); int b=a++; int c=++a; int d=a--; int e=--a; printf("%d %d %d %d %d\n",a,b,c,d,e);
//// inclong
long a=in_long(); long b=a++; long c=++a; printf("%ld %ld %ld\n",a,b,c);
//// incchar
char a=in_char(); char b=a++; int i=a,j=b; printf("%d %d\n",i,j);
//// incuint
unsigned int a=in_uint(); unsigned int b=a++; --a; --a; printf("%u %u\n",a,b);
//// compound
int a=in_int(),b=in_int(); a+=b; a-=3; a*=2; a|=1; a&=b; a^=7; printf("%d\n",a);
//// compound2
int a=in_int(),b=in_int(); a/=b; printf("%d\n",a); a%=7; printf("%d\n",a); a<<=2; a>>=1; printf("%d\n",a);
//// compoundchar
char a=in_char(); a+=3; int i=a; printf("%d\n",i);
//// compoundlong
long a=in_long(); int b=in_int(); a+=b; a-=b*2; printf("%ld\n",a);
//// compoundmix
int a=in_int(); long b=in_long(); a+=b; printf("%d\n",a);
//// chainassign
int a=in_int(); int b,c; b=c=a+1; printf("%d %d\n",b,c);
//// assignexpr
int a=in_int(); int b; if ((b=a-3)) printf("%d\n",b); else printf("z\n");
//// incmany
char c=in_char(); unsigned char u=in_uchar(); short s; long l=in_long(); unsigned int i=in_uint(); c++; ++u; l--; --i; printf("%d %d %ld %u\n",c,u,l,i); int k1=c++; int k2=++u; int k3=c--; int k4=--u; printf("%d %d %d %d\n", k1,k2,k3,k4); printf("%d %d\n",c,u);
//// incarr
char a[3]; a[0]=in_char(); a[1]=in_char(); a[2]=0; a[0]++; --a[1]; int r=a[2]--; printf("%d %d %d %d\n",a[0],a[1],a[2],r);
//// incptrs
long a[3]; a[0]=in_long(); a[1]=in_long(); a[2]=7; long *p=a; p++; printf("%ld\n",*p); --p; printf("%ld %ld %ld\n",*p,p[1],p[2]);
//// incptrs2
long a[3]; a[0]=in_long(); a[1]=in_long(); a[2]=7; long *p=a; long x=*p++; long y=*++p; printf("%ld %ld %d\n",x,y,p==a+2);
//// asnval
int a[2]; int *p=a; int x = (*p = in_int()); int y=(a[1]=x+1); printf("%d %d %d %d\n",x,y,a[0],a[1]);
//// asnval2
char a[2]; int x = (a[0] = in_int()); int y=(a[1]=300); char c; int z=(c=in_int()); printf("%d %d %d %d %d\n",x,y,a[0],a[1],z);
//// incstructm
struct S {char c; int i;}; int main(){ struct S s; struct S *p=&s; s.c=in_char(); s.i=in_int()&65535; s.c++; p->i++; int r=p->c--; printf("%d %d %d\n",s.c,s.i,r); return 0;}
//// incptrptr
int a[2]; int *q=a; int **pp=&q; a[0]=in_int(); a[1]=in_int(); (*pp)++; printf("%d\n",*q);
