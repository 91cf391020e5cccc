//// chain mon=bf
int c(int x){ printf("c%d\n",x); return x+1; } int b(int x){ int y=c(x); printf("b%d\n",y); int z=c(y); return y+z; } int a(int x){ int y=b(x); int z=b(y&255); return y+z; }
int main(int argc,char**argv){ int x=in_int()&1023; int p=a(x); printf("%d\n",p); int q=a(x+1); printf("%d\n",q); return 0; }
//// void mon=bf
int g; void f(int x){ g=g+x; if(x>5) return; g=g*2; printf("%d\n",g); }
int main(int argc,char**argv){ g=in_int()&255; f(in_int()&15); f(3); printf("%d\n",g); f(9); return g&7; }
//// types mon=bf
char fc(char a){ return a; } short fs(short a){ return a; } long fl(long a){ return a; } unsigned int fu(unsigned int a){ return a; } double fd(double a){ return a; }
int main(int argc,char**argv){ char c=in_char(); char c2=fc(c); printf("%d\n",c2); short s=0; if(c>3) s=c; short s2=fs(s); printf("%d\n",s2); long l=in_long(); long l2=fl(l); printf("%ld\n",l2); unsigned int u=in_uint(); unsigned int u2=fu(u); printf("%u\n",u2); double d=in_double(); double d2=fd(d); printf("%f\n",d2); return 0; }
//// loopcalls mon=bf
int f(int x,long y,char z){ int t=x+z; return t+(int)(y&15); }
int main(int argc,char**argv){ int s=0; int n=in_int()&7; for(int i=0;i<n;i++){ int r=f(i,s,3); s=s+r; printf("%d\n",s); } return 0; }
//// recursion mon=bf
int fact(int n){ if(n<=1) return 1; int r=fact(n-1); printf("%d\n",r); return n*r; }
int main(int argc,char**argv){ int n=in_int()&7; int r=fact(n); printf("r%d\n",r); r=fact(3); printf("r%d\n",r); return 0; }
//// fib mon=bf
int fib(int n){ if(n<2) return n; int a=fib(n-1); int b=fib(n-2); return a+b; }
int main(int argc,char**argv){ int n=in_int()&7; int r=fib(n); printf("%d\n",r); r=fib(2); printf("%d\n",r); return 0; }
//// mutual mon=bf
int odd(int n); int even(int n){ if(n==0) return 1; int r=odd(n-1); printf("%d\n",n); return r; } int odd(int n){ if(n==0) return 0; int r=even(n-1); return r; }
int main(int argc,char**argv){ int r=even(in_int()&7); printf("%d\n",r); r=odd(2); printf("%d\n",r); return 0; }
//// earlyreturn mon=bf
int f(int a){ for(int i=0;i<4;i++){ if(a==i) return i*10; switch(a){ case 5: return 50; case 6: while(1){ return 60; } } } if(a<0) return -1; return 99; }
int main(int argc,char**argv){ int a=in_int(); int r=f(a); printf("%d\n",r); r=f(2); printf("%d\n",r); return 0; }
//// manyargs mon=bf
int f(int a,char b,short c,long d,unsigned int e,char g,int h){ return a+b+c+(int)(d&255)+(int)e+g+h; }
int main(int argc,char**argv){ int a=in_int()&255; char b=in_char()&15; int r=f(a,b,3,4,5,6,7); printf("%d\n",r); r=f(7,6,5,4,3,2,1); printf("%d\n",r); return 0; }
//// variadic mon=bf
int main(int argc,char**argv){ int a=in_int(); printf("x\n"); printf("%d\n",a); printf("%d %d\n",a,a); long l=in_long(); printf("%ld %d %c\n",l,a,65); double d=in_double(); printf("%f %d\n",d,a); printf("y\n"); return 0; }
//// tail mon=bf
int f(int n,int a){ printf("%d\n",a); if(n<=0) return a; return f(n-1,a+n); } int h(int n){ int r=f(n,1); printf("h%d\n",r); int q=f(n,2); return r+q; }
int main(int argc,char**argv){ int r=h(in_int()&7); printf("%d\n",r); r=h(1); printf("%d\n",r); return 0; }
//// mixedtail mon=bf
int f(int n){ if(n<=0) return 0; if(n&1){ int k=f(n-1); printf("%d\n",k); return k+1; } return f(n-1); }
int main(int argc,char**argv){ int r=f(in_int()&7); printf("%d\n",r); r=f(4); printf("%d\n",r); return 0; }
//// ptrargs mon=b
void inc(int *p){ *p=*p+1; printf("%d\n",*p); } int get(int *p,int k){ return *p+k; }
int main(int argc,char**argv){ int x=in_int()&255; inc(&x); int y=get(&x,2); inc(&y); printf("%d %d\n",x,y); return 0; }
//// arrays mon=f
int f(int k){ int a[5]; for(int i=0;i<5;i++) a[i]=i*k; printf("%d\n",a[k&3]); return a[4]; }
int main(int argc,char**argv){ int k=in_int()&15; int r=f(k); printf("%d\n",r); r=f(r&7); printf("%d\n",r); return 0; }
//// arraysnested mon=f
int g(int k){ char s[7]; s[0]=k; s[6]=k+1; printf("%d\n",s[6]); return s[0]; } int f(int k){ long a[3]; a[0]=k; int r=g(k); a[1]=r; int q=g(k+1); a[2]=q; return (int)(a[0]+a[1]+a[2]); }
int main(int argc,char**argv){ int k=in_int()&15; int r=f(k); printf("%d\n",r); r=f(3); printf("%d\n",r); return 0; }
//// structs mon=f
struct S{ int a; char b; long c; }; int f(int k){ struct S s; s.a=k; s.b=k&7; s.c=k; printf("%d\n",s.b); return s.a+s.b; }
int main(int argc,char**argv){ int k=in_int()&255; struct S t; t.a=k; int r=f(k); printf("%d %d\n",r,t.a); r=f(t.a); printf("%d\n",r); return 0; }
//// lib mon=bf
int strlen(const char *s);
int f(char *s){ return strlen(s); }
int main(int argc,char**argv){ int a=f("abc"); printf("%d\n",a); int b=f("defgh"); printf("%d\n",b); int c=strlen("xy"); int d=in_int(); printf("%d %d\n",c,d); return 0; }
//// args mon=bf args=prog,2
int strlen(const char *s);
int f(int x){ printf("%d\n",x); return x*2; }
int main(int argc,char**argv){ int n=strlen(argv[1]); int r=f(n); printf("%d %s\n",r,argv[1]); r=f(r); printf("%d\n",argc); return 0; }
//// condcall mon=bf
int f(int x){ printf("f%d\n",x); return x&3; }
int main(int argc,char**argv){ int a=in_int(); if(f(a)==1){ printf("one\n"); } else if(f(a+1 & 255)==2){ printf("two\n"); } int i=0; while(f(i)<2) i++; int t=f(a)>1 ? f(5) : f(6); printf("%d\n",t); return 0; }
//// switchcall mon=bf
int f(int x){ switch(x&3){ case 0: printf("z\n"); return 1; case 1: printf("o\n"); break; default: return 7; } return 2; }
int main(int argc,char**argv){ int a=in_int(); switch(f(a)){ case 1: f(1); break; case 2: f(2); case 3: f(0); break; default: f(5);} printf("e\n"); return 0; }
//// gotocall mon=bf
int f(int x){ if(x<0) goto neg; x=x+1; again: printf("%d\n",x); if(x>3){ x=x-3; goto again; } return x; neg: return -x; }
int main(int argc,char**argv){ int a=in_int()&15; int r=f(a); printf("%d\n",r); r=f(-2); printf("%d\n",r); return 0; }
//// exprcalls mon=bf
int f(int x){ return x*3; } int g(int x,int y){ return x-y; }
int main(int argc,char**argv){ int a=in_int()&1023; int r=g(f(a),f(f(2))); printf("%d\n",r); r=f(g(f(1),a))+1; printf("%d\n",r); return 0; }
//// callerlocals mon=bf
int f(int x){ int a=x; int b=a*2; int c=b-1; int d=c*c; printf("%d\n",d); return a+b+c+d; }
int main(int argc,char**argv){ int p=in_int()&127; int q=in_int()&127; long l=in_long(); char c=in_char(); int r=f(p); printf("%d %d %ld %d %d\n",p,q,l,c,r); r=f(q); printf("%d %d %ld %d %d\n",p,q,l,c,r); return 0; }
