//// dconst
double d=1.5; printf("%f\n",d);
//// dadd
double a=in_double(),b=in_double(); printf("%f\n",a+b);
//// dsub
double a=in_double(),b=in_double(); printf("%f\n",a-b);
//// dmul
double a=in_double(); printf("%f\n",a*2.0);
//// ddiv
double a=in_double(); printf("%f\n",a/4.0);
//// dcmp
double a=in_double(),b=in_double(); printf("%d %d %d %d %d %d\n",a<b,a>b,a<=b,a>=b,a==b,a!=b);
//// dneg
double a=in_double(); printf("%f\n",-a);
//// dfromint
int a=in_int(); double d=a; printf("%f\n",d);
//// dfromlong
long a=in_long(); double d=a; printf("%f\n",d);
//// dfromuint
unsigned int a=in_uint(); double d=a; printf("%f\n",d);
//// dfromulong
unsigned long a=in_ulong(); double d=a; printf("%f\n",d);
//// dfromchar
char a=in_char(); double d=a; printf("%f\n",d);
//// dfromuchar
unsigned char a=in_uchar(); double d=a; printf("%f\n",d);
//// dtoint
double a=in_double(); int i=a; printf("%d\n",i);
//// dtointcast
double a=in_double(); int i=(int)a; printf("%d\n",i);
//// dmixint
int i=in_int(); double a=in_double(); printf("%f\n",a+i); printf("%d\n",a<i);
//// dmixint2
int i=in_int(); printf("%f\n",i*0.5); printf("%d\n",i>1.5);
//// dif
double a=in_double(); if(a>1.0) printf("gt\n"); else printf("le\n");
//// dtruth
double a=in_double(); if(a) printf("t\n"); else printf("f\n");
//// dnot
double a=in_double(); printf("%d\n",!a);
//// dand
double a=in_double(),b=in_double(); printf("%d %d\n",a&&b,a||b);
//// dinc
double a=in_double(); a++; printf("%f\n",a);
//// dcompound
double a=in_double(); a+=1.5; printf("%f\n",a); a*=2; printf("%f\n",a);
//// ffromint
int i=in_int(); float f=i; printf("%f\n",f);
//// farith
int i=in_int(); float f=i; float g=f+f; printf("%f\n",g);
//// ffn
double h(double x){ return x/2; }
int main(int argc,char**argv){ double d=in_double(); printf("%f\n",h(d)); return 0; }
//// ffnconv
double h(double x){ return x/2; }
int main(int argc,char**argv){ int d=in_int(); printf("%f\n",h(d)); printf("%f\n",h(3)); return 0; }
//// darr
double a[3]; a[0]=in_double(); a[1]=2.5; a[2]=a[0]; printf("%f %f\n",a[1],a[2]);
//// dternary
int i=in_int(); double d= i>0 ? 1.5 : 2.5; printf("%f\n",d);
//// dternarymix
int i=in_int(); double d= i>0 ? 1 : 2.5; printf("%f\n",d);
//// dconstint
double d=3; printf("%f\n",d); d=-2; printf("%f\n",d);
//// dptr
double a=in_double(); double *p=&a; *p=*p; printf("%f\n",*p);
//// incdouble
double d=in_double(); d++; printf("%f\n",d); --d; printf("%f\n", d--);
//// dtruth2
double a=in_double(); int n=0; while(a){ a=0.0; n++; } do { n++; } while(a); for(a=1.0;a;a=a-1.0) n++; printf("%d %d\n",n, a?1:2);
