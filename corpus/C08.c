//// noreturn
int main(int argc,char**argv){ printf("x\n"); }
//// exitcode
int main(int argc,char**argv){ return in_int(); }
//// mainvoid
int main(){ return in_int(); }
//// mainvoid2
int main(void){ return in_int(); }
//// rec
int fact(int n){ if(n<=1) return 1; return n*fact(n-1); }
int main(int argc,char**argv){ int a=in_int(); if(a<5) printf("%d\n",fact(a)); return 0; }
//// mutual
int odd(int n);
int even(int n){ if(n==0) return 1; return odd(n-1); }
int odd(int n){ if(n==0) return 0; return even(n-1); }
int main(int argc,char**argv){ int a=in_int(); if(a>=0 && a<5) printf("%d\n",even(a)); return 0; }
//// fib
int fib(int n){ if(n<2) return n; return fib(n-1)+fib(n-2); }
int main(int argc,char**argv){ int a=in_int(); if(a<5) printf("%d\n",fib(a)); return 0; }
//// args5
int f(int a,int b,int c,int d,int e){ return a-b*c+d-e; }
int main(int argc,char**argv){ int x=in_int(); int y=in_int(); printf("%d\n",f(x,2,y,4,1)); return 0; }
//// argtypes
long f(char a,int b,long c,unsigned int d,unsigned char e){ return a-b*c+d-e; }
int main(int argc,char**argv){ char a=in_char(); int b=in_int(); long c=in_long(); unsigned int d=in_uint(); unsigned char e=in_uchar(); printf("%ld\n",f(a,b,c,d,e)); return 0; }
//// argconv
long f(long x, int y){ return x*2+y; }
int main(int argc,char**argv){ int a=in_int(); long l=in_long(); printf("%ld\n",f(a,1)); printf("%ld\n",f(3,l)); return 0; }
//// argconv2
int f(unsigned int x, char c){ return x/2+c; }
int main(int argc,char**argv){ int a=in_int(); printf("%d\n",f(a,a)); return 0; }
//// retconv
long f(int x){ return x; }
char g(int x){ return x; }
int h(char x){ return x; }
int main(int argc,char**argv){ int a=in_int(); printf("%ld\n",f(a)); printf("%d\n",g(a)+0); char c=in_char(); printf("%d\n",h(c)); return 0; }
//// retconst
long f(){ return 5; }
char g(){ return 'x'; }
long h(){ return -1; }
unsigned long k(){ return 3; }
int main(int argc,char**argv){ printf("%ld\n",f()); printf("%d\n",g()+0); printf("%ld\n",h()); printf("%lu\n",k()); return 0; }
//// voidfn
int g=0;
void f(int x){ g+=x; if(x>3) return; g+=100; }
int main(int argc,char**argv){ f(in_int()); printf("%d\n",g); return 0; }
//// emptyproto
int f();
int main(int argc,char**argv){ printf("%d\n",f()); return 0; }
int f(){ return 7; }
//// nestedcall
int add(int a,int b){return a+b;}
int main(int argc,char**argv){ int a=in_int(); printf("%d\n",add(add(a,1),add(add(2,a),3))); return 0; }
//// callorder
int t(int x){printf("%d;",x); return x;}
int main(int argc,char**argv){ int a=in_int(); int b=t(a); b=b+t(b+1); printf("%d\n",b); return 0; }
//// voidparam
int f(void); int f(void){ return 3; } void g(void){ printf("g\n"); }
int main(int argc,char**argv){ g(); printf("%d\n",f()+in_int()); return 0;}
