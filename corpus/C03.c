//// ulongcmp
unsigned long a=in_ulong(),b=in_ulong(); printf("%d %d %d %d %d %d\n",a<b,a>b,a<=b,a>=b,a==b,a!=b);
//// longcmp
long a=in_long(),b=in_long(); printf("%d %d %d %d %d %d\n",a<b,a>b,a<=b,a>=b,a==b,a!=b);
//// intcmp
int a=in_int(),b=in_int(); printf("%d %d %d %d %d %d\n",a<b,a>b,a<=b,a>=b,a==b,a!=b);
//// uintcmp
unsigned int a=in_uint(),b=in_uint(); printf("%d %d %d %d %d %d\n",a<b,a>b,a<=b,a>=b,a==b,a!=b);
//// charcmp
char a=in_char(),b=in_char(); printf("%d %d %d %d %d %d\n",a<b,a>b,a<=b,a>=b,a==b,a!=b);
//// ucharcmp
unsigned char a=in_uchar(),b=in_uchar(); printf("%d %d %d %d %d %d\n",a<b,a>b,a<=b,a>=b,a==b,a!=b);
//// land
int a=in_int(),b=in_int(); printf("%d %d %d\n",a&&b,a||b,!a);
//// landlong
long a=in_long(),b=in_long(); printf("%d %d\n",a&&b,a||b);
//// lnotlong
long a=in_long(); printf("%d\n",!a);
//// lnotchar
char a=in_char(); printf("%d\n",!a);
//// landchar
char a=in_char(),b=in_char(); printf("%d %d\n",a&&b,a||b);
//// landcmp
int a=in_int(),b=in_int(); printf("%d\n",a<b && b<10 || a==5);
//// shortcircuit
int t(int x){printf("t\n"); return x;}
int main(int argc,char**argv){int a=in_int(); int r = a && t(3); printf("%d\n",r); r = a || t(0); printf("%d\n",r); return 0;}
//// scdiv
int a=in_int(),b=in_int(); if (b!=0 && a/b > 2) printf("y\n"); else printf("n\n");
//// scptr
int a=in_int(); int arr[4]; arr[0]=1;arr[1]=2;arr[2]=3;arr[3]=4; if (a>=0 && a<4 && arr[a]==3) printf("y\n"); else printf("n\n");
//// ternary
int a=in_int(); int b = a>3 ? a : 7; printf("%d\n",b);
//// ternary2
int t(int x){printf("t%d\n",x); return x;}
int main(int argc,char**argv){int a=in_int(); int b = a ? t(1) : t(2); printf("%d\n",b); return 0;}
//// ternarylong
int a=in_int(); long l=in_long(); long b = a ? l : a; printf("%ld\n",b);
//// ternarymix
int a=in_int(); unsigned int u=in_uint(); long b = a ? u : a; printf("%ld\n",b);
//// ptrcmp
int a[3]={1,2,3}; int *p=a+2; int *q=a; printf("%d %d %d\n",p>q,p==q,p!=q);
//// scloop
int i=0; int k=in_int()&7; while(i<10 && i<k) i++; printf("%d\n",i);
//// scloop2
int i=0; int k=in_int(); for(i=0; i<4 && !(i==k || i*2==k); i++){ if(i==2 && k>100) break; } printf("%d\n",i);
//// scnest
int a=in_int(),b=in_int(),c=in_int(); int n=0; if((a>0 && (n+=1)) || (b>0 && (n+=2) && c)) n+=8; printf("%d\n",n);
//// sctern
int a=in_int(),b=in_int(); int n = a && b ? (a||b) : !(a && !b); printf("%d\n",n);
//// scswitch
int a=in_int(); int r=0; switch(a){ case 1: { int q=0; r = a && (q=3); r+=q; break; } case 2: { int q=0; r = a||(q=3); r+=q; break; } default: r=a>5&&a<10;} printf("%d\n",r);
